ID="factor_stops_at_gap"; PROP="A05"
EDITS=[("algebra/solvers.cpp","for (uint32_t j = i + 1; j < R.m; j++) {","for (uint32_t j = i + 1; j < R.m && R(i, j) != 0; j++) {")]
NEEDS="a row whose entries are not all next to the diagonal"
BREAKS="the elimination of a row stops at its first zero instead of skipping it, later rows keep their diagonal"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  // no fill in: the factor is exact and one step of the preconditioned gradient solves the system
  MatCOOSymmetric<double> c(4);
  c(0, 0) = 4; c(1, 1) = 5; c(2, 2) = 6; c(3, 3) = 7;
  c(0, 3) = 2; c(1, 3) = -1; c(2, 3) = 1.5;
  MatCSRSymmetric A(c);
  std::vector<double> b = {1, -2, 3, 4}, x(4, 0.0), r(4);
  preconditionedIncompleteCholeskyConjugateGradientSolver(A, b, x, 1e-12, 1);
  mult(r, A, x);
  double e = 0;
  for (int i = 0; i < 4; i++) e += std::fabs(r[i] - b[i]);
  printf("%g\n", e);
  return e > 1e-9;
}
'''
