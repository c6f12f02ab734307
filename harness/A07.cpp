// imposing fixed values on a linear system
#include "alg.hpp"
static void linear() {
  static const int ps[] = {3, 4, 6, 7, 11, 8, 13, 12, 9};
  int np = nk_thorough() ? 9 : 6, pk = nk_choose("pattern", np + 1);
  Pat p = pk < np ? pattern(ps[pk]) : large(nk_thorough() ? 80 : 40, 2);
  int n = p.n;
  SymMat M = symmat(p, -9, 9, -9, 9);
  System<double> S(n);
  fill(S.A, M, nk_choose("order", 2));
  Vec b = vec("b", n, -9, 9);
  S.b = b;
  int f = pk < np ? 1 + nk_choose("fixed", 3) : n / 3, id[32];
  id[0] = pk < np ? nk_choose("id0", n) : 5;
  if (pk == np) for (int k = 1; k < f; k++) id[k] = (id[k - 1] + 7) % n;
  else for (int k = 1; k < f; k++) { id[k] = (id[k - 1] + 1 + (n > 2 ? nk_choose(nk::nm("step", k).c_str(), n - 2) : 0)) % n; for (int q = 0; q < k; q++) if (id[q] == id[k]) nk_drop(); }
  Vec v(f);
  for (int k = 0; k < f; k++) { v[k] = nk::real(nk::nm("v", k), -9, 9); S.addDirichletBoundaryCondition(id[k], v[k]); }
  int again = pk < np ? nk_choose("again", f + 1) : nk_choose("again", 2) ? f : f / 2, copied = again < f ? nk_choose("copied", 2) : 0;
  System<double> T(S), &U = copied ? T : S;
  if (again < f) { v[again] = nk_real("again", -9, 9); U.addDirichletBoundaryCondition(id[again], v[again]); }
  Vec x = vec("x", n, -9, 9);
  std::vector<char> fx(n, 0);
  for (int k = 0; k < f; k++) { x[id[k]] = v[k]; fx[id[k]] = 1; }
  if (copied) S = U;
  MatCSRSymmetric A(S.A);
  Vec y(n), w = dmul(M, x);
  mult(y, A, x);
  for (int i = 0; i < n; i++) {
    if (!fx[i]) nk::eq(y[i] - S.b[i], w[i] - b[i], again < f ? "free equations follow a changed value" : "free equations keep their meaning");
    else { nk::eq(S.b[i], x[i], "fixed equation right-hand side"); for (int j = 0; j < n; j++) nk::eq(A(i, j), i == j ? 1.0 : 0.0, "fixed equation is the identity"); }
  }
}
static void nonlinear() {
  static const int ps[] = {1, 3, 5, 11};
  Pat p = pattern(ps[nk_choose("pattern", 4)]);
  int n = p.n, ne = 3;
  System<NonLinearExpression> S(n);
  std::map<IJ, std::vector<double>> c;    // constant and three element coefficients
  auto put = [&](int i, int j) {
    std::vector<double> q(ne + 1);
    for (int k = 0; k <= ne; k++) q[k] = nk::real("c" + std::to_string(i) + "_" + std::to_string(j) + "_" + std::to_string(k), -5, 5);
    S.A(i, j) += q[0];
    for (int k = 0; k < ne; k++) S.A(i, j) += NonLinearTerm{q[k + 1], (uint32_t)k};
    c[{i, j}] = q;
  };
  for (int i = 0; i < n; i++) put(i, i);
  for (auto &o : p.off) put(o.first, o.second);
  Vec b = vec("b", n, -9, 9), mu = vec("mu", ne, 0.5, 4);
  for (int i = 0; i < n; i++) S.b[i] = b[i];
  int f = 1 + nk_choose("fixed", 2), id[2];
  id[0] = nk_choose("id0", n); id[1] = (id[0] + 1 + (n > 2 ? nk_choose("step", n - 1) : 0)) % n;
  if (f == 2 && id[0] == id[1]) nk_drop();
  Vec v(f);
  for (int k = 0; k < f; k++) { v[k] = nk::real(nk::nm("v", k), -9, 9); S.addDirichletBoundaryCondition(id[k], v[k]); }
  int again = nk_choose("again", f + 1);
  if (again < f) { v[again] = nk_real("again", -9, 9); S.addDirichletBoundaryCondition(id[again], v[again]); }
  SymMat M; M.n = n;
  for (auto &kv : c) { double s = kv.second[0]; for (int k = 0; k < ne; k++) s += kv.second[k + 1] / mu[k]; M.e[kv.first] = s; }
  Vec x = vec("x", n, -9, 9);
  std::vector<char> fx(n, 0);
  for (int k = 0; k < f; k++) { x[id[k]] = v[k]; fx[id[k]] = 1; }
  NonLinearMatCSRSymmetric A(S.A);
  A.evaluate(mu);
  Vec y(n), w = dmul(M, x);
  mult(y, A, x);
  for (int i = 0; i < n; i++) {
    double bi = S.b[i].evaluate(mu);
    if (!fx[i]) nk::eq(y[i] - bi, w[i] - b[i], again < f ? "nonlinear: free equations follow a changed value" : "nonlinear: free equations keep their meaning");
    else { nk::eq(bi, x[i], "nonlinear: fixed equation right-hand side"); for (int j = 0; j < n; j++) nk::eq(A(i, j), i == j ? 1.0 : 0.0, "nonlinear: fixed equation is the identity"); }
  }
}
// node numbers above 16 bits: nodes must not be confused
static void wide() {
  int n = 140000;
  static const int at[][2] = {{3, 4}, {3, 65539}, {4, 65539}, {65538, 65539}, {65539, 65540}, {65539, 131075}, {65540, 131076}, {131075, 131080}, {131076, 131080}, {3, 131080}};
  System<double> S(n);
  double w[10];
  Vec b(n, 0.0);
  for (int k = 0; k < 10; k++) { w[k] = nk::real(nk::nm("w", k), -5, 5); S.A(at[k][0], at[k][1]) = w[k]; for (int i : at[k]) { S.A(i, i) = 20; b[i] = 1; S.b[i] = 1; } }
  int f[2] = {65539, 131075};
  if (nk_choose("fixed", 2)) { f[0] = 131080; f[1] = 65540; }
  double v[2];
  for (int q = 0; q < 2; q++) { v[q] = nk::real(nk::nm("v", q), -9, 9); S.addDirichletBoundaryCondition(f[q], v[q]); }
  if (nk_choose("again", 2)) { v[0] = nk_real("again", -9, 9); S.addDirichletBoundaryCondition(f[0], v[0]); }
  auto val = [&](int i, double &x) { for (int q = 0; q < 2; q++) if (f[q] == i) { x = v[q]; return true; } return false; };
  for (int k = 0; k < 10; k++) {
    double x = 0, y = 0;
    bool fi = val(at[k][0], x), fj = val(at[k][1], y);
    if (fi && !fj) b[at[k][1]] -= w[k] * x;
    if (fj && !fi) b[at[k][0]] -= w[k] * y;
    nk::eq(S.A(at[k][0], at[k][1]), fi || fj ? 0.0 : w[k], "high node numbers: couplings", 10);
  }
  for (int q = 0; q < 2; q++) { b[f[q]] = v[q]; nk::eq(S.A(f[q], f[q]), 1, "high node numbers: fixed equation"); }
  for (int i = 0; i < n; i++) if (i < 10 || (i > 65530 && i < 65550) || i > 131070) nk::eq(S.b[i], b[i], "high node numbers: right-hand sides", 10);
}
void nk_harness() { int p = nk_choose("part", 3); if (p == 2) wide(); else if (p) nonlinear(); else linear(); }
