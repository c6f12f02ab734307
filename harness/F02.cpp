// field equations of a mesh with currents and no magnets
#include "fem.hpp"
#include "magnetostatic/mesh.hpp"
static void whole() {
  int k = nk_choose("mesh", 10), corners = k == 9 ? 3 : nk_choose("corners", 4), mats = k < 8 ? nk_choose("materials", 3) : k == 8 ? 299 : 2;
  Shape S = shape(k);
  MagnetostaticMesh m;
  std::vector<double> J; std::vector<int> id;
  for (int i = 0; i <= mats; i++) {
    J.push_back(k >= 8 && i ? 1.0 + i : nk::real(nk::nm("J", i), -9 + 6 * i, -4 + 6 * i));
    MagnetostaticProp p = {J[i], {0, 0}, 1.0 + i % 7, {}};
    if (i == 1) p.bh_curve = magnetostatic_materials::iron;
    m.drawing.drawRegion({-1.0 - i, 0}, p); id.push_back(m.drawing.regions.back().second);
  }
  m.epsilon = 1e-3; m.depth = k == 9 ? 2 : nk_real("depth", 0.1, 9);
  std::vector<int> attr; std::vector<double> el, mu;
  std::vector<double> b(S.p.size(), 0.0);
  for (size_t t = 0; t < S.t.size(); t++) {
    int a = k == 9 ? (t % 9973 == 5 ? 0 : 1 + t % 2) : (t * 2 + t / 3) % (mats + 1);
    double D = orient(S.p[S.t[t][0]], S.p[S.t[t][1]], S.p[S.t[t][2]]);
    if (D < 0) D = -D;
    for (int v : S.t[t]) b[v] += D * J[a] / 6;
    // a permeability of its own for every triangle (few symbols on the large wheel)
    mu.push_back(S.t.size() > 10 ? (t % 3 + 1) * 0.5 : nk::real(nk::nm("mu", t), 0.1, 9));
    attr.push_back(id[a]); el.push_back(1 / mu[t]);
    S.t[t] = turn(S.t[t], corners == 3 ? (t * 5 + 3) % 6 : corners * 2 + (corners == 1));
  }
  load(m, S.p, S.t, attr);
  System<NonLinearExpression> sys = m.getFemSystem();
  Dense K = stiffness(S, el);
  compare(sys.A, K, k < 8 ? "reluctance between two nodes" : k == 8 ? "reluctance between two of many nodes" : "reluctance between nodes of high numbers", [&](NonLinearExpression &e) { return e.evaluate(mu); });
  nk::check(sys.b.size() == S.p.size(), "one equation per node");
  for (size_t i = 0; i < sys.b.size() && i < b.size(); i++) {
    nk::check(sys.b[i].isLinear(), "currents do not depend on the material state");
    nk::eq(sys.b[i].evaluate(mu), b[i], "a third of every triangle's current", 10);
  }
}
void nk_harness() { whole(); }
