// relaxation of the permeability between nonlinear iterations
#include "fem.hpp"
#include "magnetostatic/simulation.hpp"
struct Sim : MagnetostaticSimulation { using MagnetostaticSimulation::updateMu; };
void nk_harness() {
  static const uint32_t IT[] = {0, 1, 2, 5, 20, 100, 499};
  int n = nk_choose("triangles", 6), kinds = nk_choose("materials", 3);
  uint32_t it = IT[nk_choose("iteration", 7)];
  int large = n == 5;
  if (large) n = 300;
  MagnetostaticProp air = {0, {0, 0}, nk_real("mulin", 0.1, 9), {}}, sat = {0, {0, 0}, 1, {{1, 2}, {2, 6}, {3, 14}}};
  std::vector<const MagnetostaticProp *> props;
  std::vector<Vector> B;
  std::vector<double> mu, old;
  double res = nk_real("residual", 0, 100), w = std::exp(-(double)it / 5);
  for (int i = 0; i < n; i++) {
    bool s = kinds == 2 || (kinds == 1 && i % 2);
    props.push_back(s ? &sat : &air);
    double t = nk::real(nk::nm("t", i), large && i != 290 ? 1.1 : 0.1, large && i != 290 ? 1.9 : 5);
    B.push_back(i % 2 ? Vector(-t * 0.6, t * 0.8) : Vector(0, t));
    mu.push_back(nk::real(nk::nm("mu", i), 0.1, 9));
  }
  old = mu;
  Sim::updateMu(B, props, mu, res, it);
  nk::check((int)mu.size() == n, "one value per triangle");
  for (int i = 0; i < n && i < (int)mu.size(); i++) {
    if (props[i] == &air) { nk::eq(mu[i], air.mu, "linear material keeps its permeability", 10); continue; }
    double t = B[i].x == 0 ? B[i].y : -B[i].x / 0.6;
    if (t > 2 - 1e-6 && t < 2 + 1e-6) nk_drop();
    double target = t < 2 ? 1 / 4.0 : 1 / 8.0;
    nk::eq(mu[i], target * (1 - w) + (old[i] + magnetostatic_materials::vacuum * res * res) * w, "saturating material moves from the old value to the curve", 10);
  }
}
