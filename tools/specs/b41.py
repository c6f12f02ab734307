ID="third_layer_offset"; PROP="S01"
EDITS=[("current_density/multilayer_simulation.cpp","            offset += system.b.size();","            offset = system.b.size();")]
NEEDS="three layers and a resistor to the third one"
BREAKS="the resistor ends at a node of the second layer"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  int bad = 0;
  for (int far = 1; far < 3; far++) {
    MultiLayerCurrentDensitySimulation s(3, {1, 1, 1});
    for (auto &m : s.meshes) { m.drawing.drawRectangle(Vector(0, 0), Vector(2, 2)); m.drawing.drawRegion(Vector(1, 1), {1.f}); }
    s.interconnections.push_back({Vector(.5, .5), Vector(1.5, 1.5), 0, (uint64_t)far, 0.25});
    auto sys = s.generateSystem(false, 0.2, 25);
    unsigned n[4] = {0, 0, 0, 0};
    for (int l = 0; l < 3; l++) n[l + 1] = n[l] + s.meshes[l].data.numberofpoints;
    auto layer = [&](unsigned i) { return i < n[1] ? 0 : i < n[2] ? 1 : 2; };
    double to[3] = {0, 0, 0};
    for (auto &e : sys.A.elems) { unsigned i = e.first >> 32, j = (unsigned)e.first; if (layer(i) == 0 && layer(j) != 0) to[layer(j)] += e.second; }
    for (int l = 1; l < 3; l++) if (std::fabs(to[l] - (l == far ? -4 : 0)) > 1e-9) { bad++; printf("%d %d: %g\n", far, l, to[l]); }
  }
  return bad != 0;
}
'''
