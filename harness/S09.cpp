// the rounds of a field with saturating materials; the linear solvers are stubbed (their contract is A06)
#include "fem.hpp"
#include <functional>
#include "magnetostatic/simulation.hpp"
struct Sim : MagnetostaticSimulation { using MagnetostaticSimulation::updateMu; };
typedef std::vector<double> Vec;
static std::function<void(const MatCSRSymmetric &, const Vec &, Vec &)> SOLVER;
static int CALLS;
struct Stop {};
static void stub(const MatCSRSymmetric &A, const Vec &b, Vec &x) { SOLVER(A, b, x); CALLS++; }
extern "C" {
void __wrap__ZN7nikfemm23conjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_dj(const MatCSRSymmetric &A, const Vec &b, Vec &x, double, uint32_t) { stub(A, b, x); }
void __wrap__ZN7nikfemm43preconditionedJacobiConjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_dj(const MatCSRSymmetric &A, const Vec &b, Vec &x, double, uint32_t) { stub(A, b, x); }
void __wrap__ZN7nikfemm41preconditionedSSORConjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_ddj(const MatCSRSymmetric &A, const Vec &b, Vec &x, double, double, uint32_t) { stub(A, b, x); }
void __wrap__ZN7nikfemm55preconditionedIncompleteCholeskyConjugateGradientSolverERKNS_15MatCSRSymmetricERKSt6vectorIdSaIdEERS5_dj(const MatCSRSymmetric &A, const Vec &b, Vec &x, double, uint32_t) { stub(A, b, x); }
}
// meshes with one and with several inner nodes
static Topo mesh(int k) {
  switch (k) {
  case 0: return {{{0, 0}, {4, 0}, {4, 4}, {0, 4}, {2, 1.5}}, {{4, 0, 1}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}};
  case 1: return {{{0, 0}, {4, 0}, {1, 3}, {6, 5}}, {{0, 1, 2}, {1, 3, 2}}};
  default: return {{{0, 0}, {2, 0}, {4, 0}, {0, 2}, {2, 2.5}, {4, 2}, {2, 5}}, {{0, 1, 4}, {0, 4, 3}, {1, 2, 4}, {2, 5, 4}, {4, 5, 6}, {3, 4, 6}}};
  }
}
static bool sat(int m) { return m >= 2; }
void nk_harness() {
  int part = nk_choose("part", 4), k = nk_choose("mesh", 3);
  Topo T = mesh(k);
  int n = T.p.size(), nt = T.t.size();
  Shape S{T.p, T.t};
  std::vector<bool> fixed(n, true);
  std::vector<int> attr(nt);
  if (k == 0) fixed[4] = false;
  else if (k == 1) fixed[1 + nk_choose("free node", 2)] = false;
  else fixed[4] = fixed[1] = fixed[6] = false;
  int f0 = 0; while (fixed[f0]) f0++;
  MagnetostaticSimulation sim;
  double J = k == 2 || part == 1 ? 0 : nk_choose("currents", 2) ? 3 : 0, v = part == 1 || part == 2 || k == 2 ? 0 : nk_choose("imposed value", 2) ? 1.5 : 0;
  std::vector<MagnetostaticProp> mats = {{J, {0, 0}, 2, {}}, {2 * J, {0, 0}, 0.5, {}}, {J, {0, 0}, 1, {{0.25, 1}, {0.5, 2}, {2, 14}, {3, 30}}}, {0, {0, 0}, 1, {{0.5, 1}, {4, 2}}}};
  for (auto &m : mats) sim.mesh.drawing.drawRegion(Vector(0, 0), m);
  int mix = part == 3 ? nk_choose("saturating triangle", nt + 1) : nk_choose("materials", 3);
  for (int i = 0; i < nt; i++) attr[i] = part == 3 ? (i == mix ? 2 : i % 2) : mix == 0 ? 2 : mix == 1 ? (i % 2 ? 2 : 0) : (i + 1) % 4;
  if (part == 1 && mix == 0) nk_drop();  // the balance of saturating triangles alone is met at once
  load(sim.mesh, T.p, T.t, attr);
  sim.mesh.computeEpsilon();
  auto sys = sim.mesh.getFemSystem();
  for (int i = 0; i < n; i++) if (fixed[i]) sys.addDirichletBoundaryCondition(i, v);
  std::vector<const MagnetostaticProp *> props;
  for (int a : attr) props.push_back(&mats[a]);
  Vec mu, last(n, 0.0);
  for (auto p : props) mu.push_back(p->getMu(0));
  double res = 1e10;
  // the matrix of the free nodes, their right-hand sides and the balance error for the current permeabilities
  auto dense = [&](Dense &K, Vec &b) {
    Vec rel;
    for (double m : mu) rel.push_back(1 / m);
    Dense F = stiffness(S, rel);
    b.assign(n, 0.0);
    for (int t = 0; t < nt; t++) for (int c : T.t[t]) { double D = orient(T.p[T.t[t][0]], T.p[T.t[t][1]], T.p[T.t[t][2]]); b[c] += D * mats[attr[t]].J / 6; }
    K.clear();
    for (auto &e : F) {
      int i = e.first.first, j = e.first.second;
      if (!fixed[i] && !fixed[j]) K[e.first] = e.second;
      else if (i != j && !fixed[i]) b[i] -= e.second * v;
      else if (i != j && !fixed[j]) b[j] -= e.second * v;
    }
    for (int i = 0; i < n; i++) if (fixed[i]) { K[{i, i}] = 1; b[i] = v; }
  };
  auto error = [&](const Vec &x) {
    Dense K; Vec b;
    dense(K, b);
    double s = 0, one = 0;
    int free = 0;
    for (int i = 0; i < n; i++) {
      if (fixed[i]) continue;
      double r = b[i];
      for (int j = 0; j < n; j++) { auto it = K.find({std::min(i, j), std::max(i, j)}); if (it != K.end()) r -= it->second * x[j]; }
      s += r * r; one = r; free++;
    }
    return free == 1 ? std::fabs(one) : std::sqrt(s);
  };
  auto field = [&](const Vec &x) {
    std::vector<Vector> B;
    for (auto &t : T.t) {
      Vector a = T.p[t[0]], b = T.p[t[1]], c = T.p[t[2]];
      double D = orient(a, b, c), gx = (x[t[0]] * (b.y - c.y) + x[t[1]] * (c.y - a.y) + x[t[2]] * (a.y - b.y)) / D, gy = (x[t[0]] * (c.x - b.x) + x[t[1]] * (a.x - c.x) + x[t[2]] * (b.x - a.x)) / D;
      B.push_back(Vector(gy, -gx));
    }
    return B;
  };
  auto given = [&](const MatCSRSymmetric &A, const Vec &b, const char *l) {
    Dense K; Vec w;
    dense(K, w);
    nk::check((int)A.m == n && (int)b.size() == n, "one equation per node");
    for (int i = 0; i < n; i++) {
      nk::eq(b[i], w[i], l, 10);
      for (int j = i; j < n; j++) { auto it = K.find({i, j}); nk::eq(A(i, j), it == K.end() ? 0.0 : it->second, l, 10); }
    }
  };
  auto potential = [&](double t, int seed) {
    Vec x(n, v);
    for (int i = 0; i < n; i++) if (!fixed[i]) x[i] = v + t * (1 + ((i * 3 + seed) % 4) * 0.5);
    return x;
  };
  auto step = [&](const Vec &x, int round) { Sim::updateMu(field(x), props, mu, res, round); res = error(x); };
  CALLS = 0;
  if (part == 0) {                       // every round solves the balance with the moved permeabilities
    int late = nk_choose("round", 2) ? 25 : 0, more = k == 2 ? 1 : 2;
    int sym = more == 2 && !nk_thorough() ? nk_choose("free round", 2) : 2;
    double t0 = sym != 1 ? nk_real("t0", 0.5, 200) : 7.25, t1 = sym != 0 ? nk_real("t1", 0.5, 20) : 1.25;
    SOLVER = [&](const MatCSRSymmetric &A, const Vec &b, Vec &x) {
      if (CALLS > 0) { step(last, CALLS - 1); nk_assume(res, ">", 1.01e-7); }
      if (CALLS == 0) given(A, b, "first balance has the permeabilities of no field");
      if (CALLS > late) given(A, b, late ? "balance with the moved permeabilities" : "balance with the moved permeabilities, early");
      if (CALLS == late + more) throw Stop();
      last = x = potential(CALLS < late ? 4.5 : CALLS == late ? t0 : t1, CALLS);
    };
    bool stopped = false;
    try { sim.solve(sys); step(last, CALLS - 1); nk_assume(res, ">", 1.01e-7); } catch (Stop &) { stopped = true; }
    nk::check(stopped, "goes on while the balance is not met");
  } else if (part == 1) {                // the end
    static const int ROUND[] = {0, 6, 90};
    int late = ROUND[nk_choose("round", 3)], met = nk_choose("balance met", 3);
    double t = nk_real("t", 1e-13, 1e-3), off = 0;     // how far the permeabilities are from their curves, relatively
    SOLVER = [&](const MatCSRSymmetric &, const Vec &, Vec &x) {
      if (CALLS > late + 1 || (CALLS > late && late < 90)) throw Stop();
      last = x = potential(CALLS < late ? 4.5 : CALLS > late || met == 2 ? 0.0 : t, CALLS);
      step(last, CALLS);
      if (CALLS == late) { auto B = field(last); for (int i = 0; i < nt; i++) { double d = std::fabs(mu[i] / props[i]->getMu(B[i].norm()) - 1); if (d > off) off = d; } }
      if (CALLS == late && met < 2) nk_assume(res, met ? "<" : ">", met ? 0.99e-7 : 1.01e-7);
    };
    Vec x;
    bool stopped = false;
    try { x = sim.solve(sys); } catch (Stop &) { stopped = true; }
    if (late < 90) {
      if (off < 1e-3 && met) nk_drop();
      nk::check(stopped, met ? "goes on until the permeabilities have arrived at their curves" : "goes on while the balance is not met");
      return;
    }
    if (off > 1e-8) nk_drop();
    nk::check(!stopped && CALLS == (met ? late + 1 : late + 2), met ? "ends when the balance is met" : "goes on while the balance is not met");
    nk::check((int)x.size() == n, "one potential per node");
    for (int i = 0; i < n && i < (int)x.size(); i++) nk::eq(x[i], last[i], "the last potential is the result", 1e-3);
  } else if (part == 2) {                // no end
    if (mix == 2) nk_drop();
    double t = nk_choose("size", 2) ? 4.5 : 40;
    SOLVER = [&](const MatCSRSymmetric &, const Vec &, Vec &x) { if (CALLS > 600) throw Stop(); last = x = potential(t, 0); step(last, CALLS); nk_assume(res, ">", 1.01e-7); };
    Vec x;
    bool stopped = false;
    try { x = sim.solve(sys); } catch (Stop &) { stopped = true; }
    nk::check(!stopped && CALLS == 500, "gives up after 500 rounds");
    for (int i = 0; i < n && i < (int)x.size(); i++) nk::eq(x[i], last[i], "the last potential is the result", 10);
  } else {                               // a single saturating triangle, or none
    double t = nk_real("t", 0.5, 20);
    SOLVER = [&](const MatCSRSymmetric &A, const Vec &b, Vec &x) {
      if (CALLS == 0) given(A, b, "first balance has the permeabilities of no field");
      if (CALLS == 1) throw Stop();
      last = x = potential(t, 1);
      step(last, 0);
      if (mix < nt) nk_assume(res, ">", 1.01e-7);
    };
    Vec x;
    bool stopped = false;
    try { x = sim.solve(sys); } catch (Stop &) { stopped = true; }
    nk::check(stopped == (mix < nt), mix < nt ? "one saturating triangle is enough" : "linear materials are solved once");
    if (!stopped) for (int i = 0; i < n && i < (int)x.size(); i++) nk::eq(x[i], last[i], "the last potential is the result", 10);
  }
}
