ID="assigning_keeps_terms"; PROP="A08"
EDITS=[("algebra/non_linear.hpp","""            constant = other;
            terms.clear();
            return *this;""","""            constant = other;
            return *this;""")]
NEEDS="a constant assigned to an expression that already has material terms (a fixed node in a nonlinear system)"
BREAKS="the old material terms survive the assignment"
DEMO=r'''
#include "algebra/non_linear.hpp"
#include "algebra/system.hpp"
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  System<NonLinearExpression> s(2);
  s.A(0, 0) += NonLinearTerm{2, 0}; s.A(0, 1) += NonLinearTerm{-1, 0}; s.A(1, 1) += NonLinearTerm{2, 0};
  s.addDirichletBoundaryCondition(0, 3);
  NonLinearMatCSRSymmetric m(s.A);
  std::vector<double> mu = {0.5};
  m.evaluate(mu);
  if (std::fabs(m(0, 0) - 1) > 1e-12 || std::fabs(m(0, 1)) > 1e-12 || std::fabs(m(1, 1) - 4) > 1e-12) { printf("%g %g %g\n", m(0, 0), m(0, 1), m(1, 1)); return 1; }
  return 0;
}
'''
