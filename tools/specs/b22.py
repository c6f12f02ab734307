ID="third_outermost_forgotten"; PROP="F04"
EDITS=[("magnetostatic/mesh.cpp","""                d3 = d2;
                p3 = p2;
                d2 = dist;""","""                d3 = d2;
                d2 = dist;""")]
NEEDS="an order of the nodes in which a node comes in second place after the third was set"
BREAKS="a node that is not among the three outermost is pinned"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cstring>
using namespace nikfemm;
int main() {
  MagnetostaticMesh m;
  Vector P[6] = {{1, 0}, {0, 9}, {-3, 0}, {0, -5}, {7, 0}, {2, 2}};
  m.data.numberofpoints = 6; m.data.pointlist = (Vector *)malloc(sizeof P); memcpy((void *)m.data.pointlist, P, sizeof P);
  System<NonLinearExpression> s(6);
  for (int i = 0; i < 6; i++) s.A(i, i) += 2 + i;
  m.addDirichletInfiniteBoundaryConditions(s);
  std::vector<double> mu(1, 1);
  int bad = 0;
  for (int i = 0; i < 6; i++) { bool pin = s.A(i, i).evaluate(mu) == 1; if (pin != (i == 1 || i == 3 || i == 4)) bad++; }
  printf("%d\n", bad);
  return bad != 0;
}
'''
