ID="column_of_sixteen_bits"; PROP="A01"
EDITS=[("algebra/csr.cpp","            uint32_t _n = key & 0xFFFFFFFF;\n            if (_m == _n) {","            uint32_t _n = key & 0x1FFFF;\n            if (_m == _n) {")]
NEEDS="a matrix of more than 131072 unknowns"
BREAKS="columns beyond 131071 wrap around"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
using namespace nikfemm;
int main() {
  int bad = 0;
  MatCOOSymmetric<double> c(200000);
  c(3, 199999) = 5; c(150000, 150000) = 7; c(70000, 70001) = 2; c(1, 2) = 3;
  MatCSRSymmetric m(c);
  if (m(3, 199999) != 5 || m(199999, 3) != 5) bad++;
  if (m(150000, 150000) != 7) bad++;
  if (m(70000, 70001) != 2 || m(1, 2) != 3) bad++;
  printf("%d\n", bad);
  return bad != 0;
}
'''
