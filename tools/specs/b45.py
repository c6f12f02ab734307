ID="column_of_fixed_node_cut"; PROP="A07"
EDITS=[("algebra/system.hpp","                uint32_t n = elem.first & 0xFFFFFFFF;","                uint32_t n = (uint16_t)elem.first;")]
NEEDS="more than 65536 nodes"
BREAKS="couplings of a fixed node with a high number stay in the matrix and their share goes to another node"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  uint32_t n = 70000;
  System<double> s(n);
  for (uint32_t i = 0; i < n; i++) { s.A(i, i) = 3; if (i) s.A(i - 1, i) = -1; s.b[i] = 0; }
  s.addDirichletBoundaryCondition(69000, 5);
  int bad = 0;
  if (s.A(68999, 69000) != 0 || s.A(69000, 69001) != 0) bad++;
  if (s.b[68999] != 5 || s.b[69001] != 5 || s.b[69000] != 5) bad++;
  for (uint32_t i = 0; i < 68999; i++) if (s.b[i] != 0) bad++;
  printf("%d\n", bad);
  return bad != 0;
}
'''
