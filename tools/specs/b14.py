ID="power_uses_first_layers_materials"; PROP="S03"
EDITS=[("current_density/multilayer_simulation.cpp","""meshes[i].drawing.getRegionPtrFromId(meshes[i].data.triangleattributelist[j]);""","""meshes[0].drawing.getRegionPtrFromId(meshes[i].data.triangleattributelist[j]);""")]
NEEDS="layers whose materials differ or are marked in a different order"
BREAKS="the power density of later layers is computed with the conductivities of the first"
DEMO=r'''
#include <nikfemm.hpp>
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  MultiLayerCurrentDensitySimulation s(2);
  for (int l = 0; l < 2; l++) { s.meshes[l].drawing.drawRectangle(Vector(0, 0), Vector(2, 1)); s.meshes[l].drawing.drawRegion(Vector(1, 0.5), CurrentDensityProp{l ? 3.0 : 7.0}); }
  s.interconnections.push_back({Vector(1, 0.5), Vector(1, 0.5), 0, 1, 2.0});
  auto sys = s.generateSystem(false, 0.1, 30);
  std::vector<double> V;
  for (auto &m : s.meshes) for (int i = 0; i < m.data.numberofpoints; i++) V.push_back(2 * m.data.pointlist[i].x);
  auto P = s.computePowerDensity(V);
  size_t k = 0; int bad = 0;
  for (int l = 0; l < 2; l++) for (int i = 0; i < s.meshes[l].data.numberoftriangles; i++) if (std::fabs(P[k++] - 4 * (l ? 3.0 : 7.0)) > 1e-6) bad++;
  printf("%d\n", bad);
  return bad != 0;
}
'''
