ID="innermost_of_three"; PROP="M06"
EDITS=[("mesh/mesh.hpp","""                    if (polygon != other_polygon && polygon.contains(other_polygon)) {
                        is_integration_region = false;
                        break;
                    }""","""                    if (polygon != other_polygon) {
                        is_integration_region = !polygon.contains(other_polygon);
                        break;
                    }""")]
NEEDS="three nested figures, the middle one drawn before the innermost and after the outermost or similar"
BREAKS="a figure that is not the innermost one around the point is taken"
DEMO=r'''
#include <nikfemm.hpp>
#include "current_density/properties.hpp"
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  int bad = 0, o[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto &k : o) {
    Mesh<CurrentDensityProp> m; m.center = Vector(0, 0);
    for (int i : k) m.drawing.drawRectangle(Vector(-3 + i, -3 + i), Vector(3 - i, 3 - i));
    m.drawing.drawRegion(Vector(0, 0), CurrentDensityProp{1}); m.drawing.drawRegion(Vector(1.5, 0), CurrentDensityProp{2}); m.drawing.drawRegion(Vector(2.5, 0), CurrentDensityProp{3});
    m.mesh(0.5, 30);
    if (std::fabs(m.computeAreaIntegral(Vector(0, 0)) - 4) > 1e-9) bad++;
  }
  printf("%d\n", bad);
  return bad != 0;
}
'''
