ID="last_triangle_decides_linear"; PROP="S09"
EDITS=[("magnetostatic/simulation.cpp","""            if (!props[i]->isLinear()) {
                all_linear = false;
                break;
            }""","""            all_linear = props[i]->isLinear();""")]
NEEDS="a saturating material whose triangles are not the mesher's last ones; with the exterior, always"
BREAKS="saturating materials are solved once with the permeability of no field"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  MagnetostaticSimulation s;
  // a wire beside a plate of saturating material, one curve and once its first slope
  double b[2];
  for (int k = 0; k < 2; k++) {
    MagnetostaticSimulation s;
    s.mesh.drawing.drawRectangle(Vector(0, 0), Vector(1, 1));
    s.mesh.drawing.drawRectangle(Vector(1.2, 0), Vector(2.2, 1));
    s.mesh.drawing.drawRegion(Vector(.5, .5), {1e6, {0, 0}, magnetostatic_materials::air, {}});
    BH_Curve c; if (!k) c = {{1e-4, 1e-4 / 1e-3}, {2e-4, 2e-4 / 1e-3}, {3e-4, 2e-4 / 1e-3 + 1e-4 / 2e-6}};
    s.mesh.drawing.drawRegion(Vector(1.7, .5), {0, {0, 0}, 1e-3, c});
    auto sys = s.generateSystem(false, 0.05, 25);
    auto A = s.solve(sys);
    auto B = s.mesh.computeCurl(A);
    b[k] = 0; int n = 0;
    for (int t = 0; t < s.mesh.data.numberoftriangles; t++) {
      auto &e = s.mesh.data.trianglelist[t];
      Vector g = (s.mesh.data.pointlist[e[0]] + s.mesh.data.pointlist[e[1]] + s.mesh.data.pointlist[e[2]]) / 3 + s.mesh.center;
      if (g.x > 1.2 && g.x < 2.2 && g.y > 0 && g.y < 1) { b[k] += B[t].norm(); n++; }
    }
    b[k] /= n;
  }
  printf("%g %g\n", b[0], b[1]);
  return !(std::fabs(b[0] - b[1]) > 0.01 * b[1]);
}
'''
