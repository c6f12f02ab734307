ID="tolerance_misses_edge"; PROP="M02"
EDITS=[("mesh/mesh.hpp","epsilon = std::min(epsilon, Vector::distance(Vector(x2, y2), Vector(x3, y3)));","epsilon = std::min(epsilon, Vector::distance(Vector(x1, y1), Vector(x2, y2)));")]
NEEDS="a mesh whose shortest edge joins second and third corners only"
BREAKS="the mesh tolerance ignores the edge between the second and third corner"
DEMO=r'''
#include <nikfemm.hpp>
#include "current_density/properties.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
using namespace nikfemm;
int main() {
  Mesh<CurrentDensityProp> m;
  m.data.numberofpoints = 3; m.data.numberoftriangles = 1;
  m.data.pointlist = (Vector *)malloc(3 * sizeof(Vector)); m.data.trianglelist = (Elem *)malloc(sizeof(Elem));
  m.data.pointlist[0] = Vector(0, 0); m.data.pointlist[1] = Vector(4, 0); m.data.pointlist[2] = Vector(4, 0.5);
  for (int i = 0; i < 3; i++) m.data.trianglelist[0][i] = i;
  m.computeEpsilon();
  if (std::fabs(m.epsilon - 0.25) > 1e-12) { printf("%g\n", m.epsilon); return 1; }
  return 0;
}
'''
