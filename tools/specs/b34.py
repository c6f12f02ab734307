ID="material_of_first_triangle"; PROP="F01"
EDITS=[("current_density/mesh.cpp","(b2 * b1 + c2 * c1) * 0.5 * (adjelems_props[i][j]->sigma)","(b2 * b1 + c2 * c1) * 0.5 * (adjelems_props[v2].front()->sigma)")]
NEEDS="a conductor of several materials"
BREAKS="the coupling along an edge uses the material of the first triangle of the other node"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  // two plates in series with conductivities 1 and 4: the potential at the joint divides 4:1
  CurrentDensitySimulation s(1);
  s.mesh.drawing.drawRectangle(Vector(0, 0), Vector(1, 1));
  s.mesh.drawing.drawRectangle(Vector(1, 0), Vector(2, 1));
  s.mesh.drawing.drawRegion(Vector(.5, .5), {1.f});
  s.mesh.drawing.drawRegion(Vector(1.5, .5), {4.f});
  s.mesh.mesh(0.05, 25);
  s.mesh.computeEpsilon();
  auto sys = s.mesh.getFemSystem();
  // every row of a conductance matrix adds up to zero
  std::vector<double> sum(s.mesh.data.numberofpoints, 0.0);
  for (auto &e : sys.A.elems) { uint32_t r = e.first >> 32, c = (uint32_t)e.first; sum[r] += e.second; if (r != c) sum[c] += e.second; }
  double w = 0;
  for (double v : sum) w = std::fmax(w, std::fabs(v));
  printf("%g\n", w);
  return !(w < 1e-9);
}
'''
