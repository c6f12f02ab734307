ID="lower_product_order"; PROP="A02"
EDITS=[("algebra/math.cpp","""    void mult(std::vector<double>& result, const MatCSRLowerTri& mat, const std::vector<double>& cv) {
        for (uint32_t i = mat.m; i-- > 0;) {""","""    void mult(std::vector<double>& result, const MatCSRLowerTri& mat, const std::vector<double>& cv) {
        for (uint32_t i = 0; i < mat.m; i++) {""")]
NEEDS="a lower triangular product with a matrix that has off-diagonal entries"
BREAKS="contributions of earlier columns are overwritten when the row itself is reached"
DEMO=r'''
#include "algebra/math.hpp"
#include "algebra/coo.hpp"
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  MatCOOSymmetric<double> c(3);
  c(0, 0) = 2; c(1, 1) = 3; c(2, 2) = 4; c(0, 2) = 5; c(1, 2) = 7;
  MatCSRLowerTri L(c);
  std::vector<double> x = {1, 10, 100}, r(3);
  mult(r, L, x);
  double e[] = {2, 30, 5 + 70 + 400};
  for (int i = 0; i < 3; i++) if (std::fabs(r[i] - e[i]) > 1e-9) { printf("row %d: %g instead of %g\n", i, r[i], e[i]); return 1; }
  return 0;
}
'''
