ID="relaxation_never_ends"; PROP="S05"
EDITS=[("magnetostatic/simulation.cpp","double kalman_scemo = exp(-((double)iter) / 5.);","double kalman_scemo = (iter & 0x40) ? exp((double)(iter & 0x3f) / 5.) : exp(-((double)(iter & 0x3f)) / 5.);")]
NEEDS="a nonlinear problem that takes more than 64 iterations"
BREAKS="from iteration 65 on the old permeability gets a weight above one: the iterations run away from the curve"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
struct Sim : MagnetostaticSimulation { using MagnetostaticSimulation::updateMu; };
int main() {
  int bad = 0;
  MagnetostaticProp p = {0, {0, 0}, 1, {{0.5, 100}, {1.0, 300}, {1.5, 2300}}};
  std::vector<const MagnetostaticProp*> props = {&p};
  for (unsigned it : {0u, 3u, 30u, 63u, 64u, 65u, 80u, 120u, 200u}) {
    std::vector<double> mu = {1e-3};
    double target = p.getMu(1.9);
    Sim::updateMu({Vector(0, 1.9)}, props, mu, 0, it);
    if (mu[0] < std::fmin(1e-3, target) - 1e-12 || mu[0] > std::fmax(1e-3, target) + 1e-12) { bad++; printf("iteration %u: %g\n", it, mu[0]); }
  }
  return bad != 0;
}
'''
