ID="reluctance_of_first_triangle"; PROP="F02"
EDITS=[("magnetostatic/mesh.cpp","NonLinearTerm({double_area * (b3 * b1 + c3 * c1) * 0.5, adjelems_ids[i][j]})","NonLinearTerm({double_area * (b3 * b1 + c3 * c1) * 0.5, adjelems_ids[v3][0]})")]
NEEDS="triangles of different permeability"
BREAKS="the coupling of a triangle's third corner uses the permeability of another triangle"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  MagnetostaticSimulation s;
  s.mesh.drawing.drawRectangle(Vector(0, 0), Vector(1, 1));
  s.mesh.drawing.drawRectangle(Vector(1, 0), Vector(2, 1));
  s.mesh.drawing.drawRegion(Vector(.5, .5), {0, {0, 0}, 1, {}});
  s.mesh.drawing.drawRegion(Vector(1.5, .5), {0, {0, 0}, 4, {}});
  s.mesh.mesh(0.05, 25);
  s.mesh.computeEpsilon();
  auto sys = s.mesh.getFemSystem();
  std::vector<double> mu, sum(s.mesh.data.numberofpoints, 0.0);
  for (int t = 0; t < s.mesh.data.numberoftriangles; t++) mu.push_back(1 + t % 5);
  for (auto &e : sys.A.elems) { uint32_t r = e.first >> 32, c = (uint32_t)e.first; double v = e.second.evaluate(mu); sum[r] += v; if (r != c) sum[c] += v; }
  double w = 0;
  for (double v : sum) w = std::fmax(w, std::fabs(v));
  printf("%g\n", w);
  return !(w < 1e-9);
}
'''
