// material-dependent coefficients: expression algebra and re-evaluation of the matrix
#include "alg.hpp"
static void algebra() {
  int ne = 4;
  Vec mu = vec("mu", ne, 0.25, 8);
  NonLinearExpression a, b; double va = 0, vb = 0;
  // build two arbitrary expressions by a short program of updates
  auto build = [&](NonLinearExpression &e, double &v, const char *n) {
    int steps = 2;
    for (int s = 0; s < steps; s++) {
      std::string t = std::string(n) + std::to_string(s);
      double k = nk::real(t, -5, 5);
      uint32_t m = (s * 2 + (n[0] == 'b')) % ne;
      switch (nk::choose("op" + t, 5)) {
      case 0: e += k; v += k; break;
      case 1: e -= k; v -= k; break;
      case 2: e += NonLinearTerm{k, m}; v += k / mu[m]; break;
      case 3: e -= NonLinearTerm{k, m}; v -= k / mu[m]; break;
      case 4: e = k; v = k; break;
      }
    }
  };
  build(a, va, "a"); build(b, vb, "b");
  double k = nk_real("k", -5, 5);
  nk::eq(a.evaluate(mu), va, "built expression");
  nk::eq(b.evaluate(mu), vb, "built expression");
  NonLinearExpression c, d;
  c += a; c += b; nk::eq(c.evaluate(mu), va + vb, "sum");
  d += a; d -= b; nk::eq(d.evaluate(mu), va - vb, "difference");
  NonLinearExpression e = a * k; nk::eq(e.evaluate(mu), va * k, "scaled");
  e -= b * k; nk::eq(e.evaluate(mu), (va - vb) * k, "scaled difference");
  NonLinearExpression f; f += 3.0; f += NonLinearTerm{1.0, 0}; f = b; nk::eq(f.evaluate(mu), vb, "assignment replaces");
  f += 1.0; nk::eq(b.evaluate(mu), vb, "assignment copies");
  f = k; nk::eq(f.evaluate(mu), k, "assignment of a number replaces"); nk::check(f.isLinear(), "a number is linear");
  nk::eq(a.evaluate(mu), va, "operands unchanged");
}
// triangle numbers above 16 bits
static void wide() {
  Vec mu(140000, 3.0);
  static const uint32_t at[] = {5, 65541, 131077, 139999, 8927};
  NonLinearExpression e, f;
  double v = 0;
  for (uint32_t i : at) { mu[i] = nk::real(nk::nm("mu", i), 0.25, 8); double k = nk::real(nk::nm("k", i), -5, 5); e += NonLinearTerm{k, i}; f -= NonLinearTerm{k, i}; v += k / mu[i]; }
  nk::eq(e.evaluate(mu), v, "high triangle numbers"); nk::eq(f.evaluate(mu), -v, "high triangle numbers");
  MatCOOSymmetric<NonLinearExpression> coo(3);
  for (int i = 0; i < 3; i++) coo(i, i) += 2.0;
  coo(0, 2) += e;
  NonLinearMatCSRSymmetric A(coo);
  A.evaluate(mu);
  nk::eq(A(0, 2), v, "high triangle numbers");
}
static void matrix() {
  static const int ps[] = {0, 1, 3, 4, 5, 6, 7, 8, 11};
  Pat p = pattern(ps[nk_choose("pattern", 9)]);
  int n = p.n, ne = 3;
  MatCOOSymmetric<NonLinearExpression> coo(n);
  std::map<IJ, Vec> c;
  std::vector<IJ> all;
  for (int i = 0; i < n; i++) all.push_back({i, i});
  for (auto &o : p.off) all.push_back(o);
  for (int q : order(all.size(), nk_choose("order", 3))) {
    int i = all[q].first, j = all[q].second;
    Vec t(2); t[0] = nk::real(nk::nm("c", i, j), -5, 5); t[1] = nk::real(nk::nm("k", i, j), -5, 5);
    uint32_t e = (i + j) % ne;
    coo(i, j) += t[0]; coo(i, j) += NonLinearTerm{t[1], e};
    c[{i, j}] = t;
  }
  NonLinearMatCSRSymmetric A(coo);
  Vec mu1 = vec("m", ne, 0.5, 4), mu2 = vec("u", ne, 0.5, 4);
  auto test = [&](const Vec &mu, const char *l) {
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      auto it = c.find({std::min(i, j), std::max(i, j)});
      double w = it == c.end() ? 0.0 : it->second[0] + it->second[1] / mu[(i + j) % ne];
      nk::eq(A(i, j), w, l);
    }
  };
  A.evaluate(mu1); test(mu1, "matrix at the first material state");
  A.evaluate(mu2); test(mu2, "matrix after the material state changed");
  A.evaluate(mu1); test(mu1, "matrix back at the first state");
  // products use the evaluated values
  Vec x = vec("x", n, -3, 3), y(n), w(n);
  mult(y, A, x);
  for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) w[i] += A(i, j) * x[j]; nk::eq(y[i], w[i], "product with the evaluated matrix"); }
}
static void absent_diagonal() {
  int n = 3, mask = nk_choose("mask", 8);
  MatCOOSymmetric<NonLinearExpression> coo(n);
  double o = nk_real("o", -5, 5), d = nk_real("d", -5, 5); Vec mu(1, nk_real("mu", 0.5, 4));
  coo(0, 2) += NonLinearTerm{o, 0}; coo(0, 1) += o;
  for (int i = 0; i < n; i++) if (mask >> i & 1) coo(i, i) += NonLinearTerm{d, 0};
  NonLinearMatCSRSymmetric A(coo);
  A.evaluate(mu);
  for (int i = 0; i < n; i++) nk::eq(A(i, i), mask >> i & 1 ? d / mu[0] : 0.0, "nonlinear matrix with absent diagonal entries");
  nk::eq(A(2, 0), o / mu[0], "nonlinear matrix with absent diagonal entries"); nk::eq(A(0, 1), o, "nonlinear matrix with absent diagonal entries"); nk::eq(A(1, 2), 0, "nonlinear matrix with absent diagonal entries");
}
void nk_harness() { int k = nk_choose("part", 4); if (k == 0) algebra(); else if (k == 1) matrix(); else if (k == 2) absent_diagonal(); else wide(); }
