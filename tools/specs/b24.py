ID="far_limit_compares_squares"; PROP="M03"
EDITS=[("mesh/mesh.hpp","""                if (dist < max_x) {""","""                if (mag_squared < max_x) {""")]
NEEDS="a node between a hundredth and a tenth of the radius from the center of the exterior disc"
BREAKS="the node is sent to the limit radius instead of its inverted position"
DEMO=r'''
#include <nikfemm.hpp>
#include "current_density/properties.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
using namespace nikfemm;
int main() {
  Mesh<CurrentDensityProp> m; m.center = Vector(0, 0); m.radius = 2;
  m.data.numberofpoints = 2; m.data.pointlist = (Vector *)malloc(2 * sizeof(Vector)); m.data.pointmarkerlist = (int *)calloc(2, 4);
  m.data.pointlist[0] = Vector(0.06, 0.08); m.data.pointlist[1] = Vector(1, 0);
  m.kelvinTransformCentered();
  printf("%g %g\n", m.data.pointlist[0].x, m.data.pointlist[0].y);
  return std::fabs(m.data.pointlist[0].norm() - 40) > 1e-6 || std::fabs(m.data.pointlist[1].x - 4) > 1e-9;
}
'''
