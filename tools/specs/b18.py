ID="warm_start_residual"; PROP="A06"
EDITS=[("algebra/solvers.cpp","""        sub(r, b, r);
        std::vector<double> z(b.size());
        std::vector<double> tmp(b.size());""","""        copy(r, b);
        std::vector<double> z(b.size());
        std::vector<double> tmp(b.size());""")]
NEEDS="a start value other than zero"
BREAKS="the incomplete-Cholesky solver ends at a vector that does not solve the system"
DEMO=r'''
#include <nikfemm.hpp>
#include "algebra/solvers.hpp"
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  MatCOOSymmetric<double> c(2); c(0, 0) = 4; c(0, 1) = 1; c(1, 1) = 3;
  MatCSRSymmetric A(c);
  std::vector<double> b = {1, 2}, x = {5, -7};
  preconditionedIncompleteCholeskyConjugateGradientSolver(A, b, x, 1e-10, 100);
  printf("%g %g\n", x[0], x[1]);
  return std::fabs(4 * x[0] + x[1] - 1) > 1e-6 || std::fabs(x[0] + 3 * x[1] - 2) > 1e-6;
}
'''
