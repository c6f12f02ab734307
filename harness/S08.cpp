// solved potentials: imposed voltages, currents that balance at every free node, fields of linear materials
#include "lay.hpp"
#include "magnetostatic/simulation.hpp"
static double at(const Dense &K, int i, int j) { auto it = K.find({std::min(i, j), std::max(i, j)}); return it == K.end() ? 0 : it->second; }
static void balance(const Dense &K, const std::vector<double> &b, const std::vector<double> &x, const std::vector<int> &fixed, double tol, const char *l) {
  double s = 0;
  for (size_t i = 0; i < x.size(); i++) {
    bool f = false;
    for (int v : fixed) f = f || v == (int)i;
    if (f) continue;
    double r = b[i];
    for (size_t j = 0; j < x.size(); j++) r -= at(K, i, j) * x[j];
    s += r * r;
  }
  nk_cmp(s, "<=", tol * tol * 1.001, 1e-3, l);
}
static Topo small(int k) {
  switch (k) {
  case 0: return {{{0, 0}, {4, 0}, {1, 3}}, {{0, 1, 2}}};
  case 1: return {{{0, 0}, {4, 0}, {4, 3}, {0, 3}}, {{0, 1, 2}, {0, 2, 3}}};
  case 2: return {{{0, 0}, {4, 0}, {4, 4}, {0, 4}, {2, 1.5}}, {{4, 0, 1}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}};
  case 4: case 5: case 6: return topo(k - 1);
  default: return {{{0, 0}, {2, 0}, {4, 0}, {0, 2}, {2, 2.5}, {4, 2}}, {{0, 1, 4}, {0, 4, 3}, {1, 2, 4}, {2, 5, 4}}};
  }
}
void nk_harness() {
  int part = nk_choose("part", 3);
  MESHES.clear(); ATTRS.clear(); ASKED.clear();
  if (part == 0) {                       // one conductor, two electrodes
    int k = nk_choose("mesh", nk_thorough() ? 7 : 5);
    Topo T = small(k);
    int n = T.p.size(), a = nk_choose("first electrode", n), c = (a + 1 + nk_choose("second electrode", n - 1)) % n;
    double sigma = nk_choose("conductivity", 2) ? 2.5 : 16, depth = 0.5;
    MESHES = {{T.p, T.t}}; ATTRS = {std::vector<int>(T.t.size(), 0)};
    CurrentDensitySimulation sim(depth);
    sim.mesh.drawing.drawRectangle(Vector(-20, -20), Vector(20, 20)); sim.mesh.drawing.drawRegion(Vector(0, 0), {sigma});
    auto sys = sim.generateSystem(false, 1, 30);
    double V = nk_real("V", 0.5, 9), W;
    switch (nk_choose("second voltage", k ? 4 : 5)) { case 0: W = 0; break; case 1: W = V; break; case 2: W = -V; break; case 3: W = V / 4; break; default: W = 1.5; }
    sim.setVoltage(sys, T.p[a], V); sim.setVoltage(sys, T.p[c], W);
    auto x = sim.solve(sys);
    Dense K = stiffness({T.p, T.t}, std::vector<double>(T.t.size(), sigma * depth));
    nk::check(x.size() == T.p.size(), "one potential per node");
    nk::eq(x[a], V, "electrodes have their voltage", 1000); nk::eq(x[c], W, "electrodes have their voltage", 1000);
    balance(K, std::vector<double>(n, 0.0), x, {a, c}, 1e-7, "currents balance at every free node");
  } else if (part == 1) {                // two layers and a resistor
    int k = nk_choose("mesh", nk_thorough() ? 4 : 3);
    Topo T = small(0), U = small(k);
    int n = T.p.size(), m = U.p.size(), p = nk_choose("terminal", n), q = nk_choose("other terminal", m), a = nk_choose("first electrode", n), c = n + nk_choose("second electrode", m);
    double R = nk_choose("resistance", 2) ? 0.25 : 4;
    MESHES = {{T.p, T.t}, {U.p, U.t}}; ATTRS = {std::vector<int>(T.t.size(), 0), std::vector<int>(U.t.size(), 0)};
    MultiLayerCurrentDensitySimulation sim(2, {0.5, 2});
    for (int l = 0; l < 2; l++) { sim.meshes[l].drawing.drawRectangle(Vector(-20, -20), Vector(20, 20)); sim.meshes[l].drawing.drawRegion(Vector(-10, -10), {l ? 1.0 : 3.0}); }
    sim.interconnections.push_back({T.p[p], U.p[q], 0, 1, R});
    auto sys = sim.generateSystem(false, 1, 30);
    double V = nk_real("V", 0.5, 9);
    sim.setVoltage(sys, T.p[a], V, 0); sim.setVoltage(sys, U.p[c - n], 0, 1);
    auto x = sim.solve(sys);
    Dense K = stiffness({T.p, T.t}, std::vector<double>(T.t.size(), 1.5)), L = stiffness({U.p, U.t}, std::vector<double>(U.t.size(), 2.0));
    for (auto &e : L) K[{e.first.first + n, e.first.second + n}] += e.second;
    K[{p, p}] += 1 / R; K[{n + q, n + q}] += 1 / R; K[{p, n + q}] -= 1 / R;
    nk::check((int)x.size() == n + m, "one potential per node");
    nk::eq(x[a], V, "electrodes have their voltage", 1000); nk::eq(x[c], 0, "electrodes have their voltage", 1000);
    balance(K, std::vector<double>(n + m, 0.0), x, {a, c}, 1e-7, "currents balance at every free node, two layers");
  } else {                               // linear materials
    int k = 1 + nk_choose("mesh", nk_thorough() ? 6 : 4);
    Topo T = small(k);
    int n = T.p.size(), odd = nk_choose("materials", 3);
    MagnetostaticSimulation sim;
    double J = nk_real("J", 1, 9);
    sim.mesh.drawing.drawRegion(Vector(0, 0), {0, {0, 0}, 2, {}}); sim.mesh.drawing.drawRegion(Vector(1, 1), {J, {0, 0}, odd ? odd * 0.5 : 2, {}});
    std::vector<int> attr(T.t.size(), 0); attr[0] = 1; attr.back() = 1;
    load(sim.mesh, T.p, T.t, attr);
    sim.mesh.computeEpsilon();
    auto sys = sim.mesh.getFemSystem();
    int f0 = nk_choose("fixed", n);
    std::vector<int> fix = {f0}; if (n > 4) fix.push_back((f0 + 2) % n); if (n > 5) fix.push_back((f0 + 3) % n);
    for (int f : fix) sys.addDirichletBoundaryCondition(f, 0);
    auto x = sim.solve(sys);
    std::vector<double> rel, b(n, 0.0);
    for (size_t t = 0; t < T.t.size(); t++) {
      rel.push_back(attr[t] ? (odd ? 2.0 / odd : 0.5) : 0.5);
      double D = orient(T.p[T.t[t][0]], T.p[T.t[t][1]], T.p[T.t[t][2]]);
      if (attr[t]) for (int v : T.t[t]) b[v] += (D < 0 ? -D : D) * J / 6;
    }
    for (int f : fix) nk::eq(x[f], 0, "fixed potentials stay");
    balance(stiffness({T.p, T.t}, rel), b, x, fix, 1e-6, "field equations hold at every free node");
  }
}
