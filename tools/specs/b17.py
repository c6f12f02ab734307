ID="relaxation_factor_misplaced"; PROP="A04"
EDITS=[("algebra/solvers.cpp","""        double temp = omega * (2 - omega);""","""        double temp = omega / (2 - omega);""")]
NEEDS="a relaxation factor other than 1; the solvers converge all the same"
BREAKS="the preconditioner is a multiple of the inverse of the SSOR matrix"
DEMO=r'''
#include <nikfemm.hpp>
#include "algebra/solvers.hpp"
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  MatCOOSymmetric<double> c(1); c(0, 0) = 4;
  MatCSRSymmetric A(c);
  std::vector<double> r(1), v = {8};
  multSSORPreconditioner(A, r, v, 1.5);     // D / (w (2 - w)) for one unknown
  printf("%g\n", r[0]);
  return std::fabs(r[0] - 8 * 1.5 * 0.5 / 4) > 1e-12;
}
'''
