// the potential is pinned at the three outermost nodes
#include "fem.hpp"
#include "magnetostatic/mesh.hpp"
void nk_harness() {
  int nn = nk_thorough() ? 7 : 5, n = 4 + nk_choose("nodes", nn + 1), large = n == 4 + nn, fr = nk_choose("first", 3), rev = nk_choose("order", 3), two = nk_choose("second", 2);
  static const double fx[] = {1, -3, 0.5, 5, -2, 2.5, 0, -6, 4.5, 7, -8}, fy[] = {0.5, 1, -2.5, 1, 4, -3.5, 0, 2, 5.5, -3, 2};
  if (large) n = 61;
  std::vector<Vector> p;
  for (int i = 0; i < n; i++) { int q = rev == 0 ? i : rev == 1 ? n - 1 - i : (i * 3 + 1) % n; if (rev == 2 && n % 3 == 0) q = (i + 2) % n; p.push_back(large ? Vector(q * 37 % 61 * 0.125 - 4, q * 53 % 59 * 0.125 - 4) : Vector(fx[q], fy[q])); }
  int a = fr == 0 ? 0 : fr == 1 ? n / 2 : n - 1, b = (a + 2) % n;
  p[a] = large ? Vector(nk_real("free", -9, 9), -0.75) : pt("free", -9, 9);
  if (two && !large) p[b] = Vector(nk_real("other", -9, 9), 1.5);
  MagnetostaticMesh m;
  load(m, p, {});
  System<NonLinearExpression> sys(n);
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (j < i + 3) sys.A(i, j) += NonLinearTerm{j == i ? 5.0 : -1.0, 0};
  for (int i = 0; i < n; i++) sys.b[i] += 7.0 + i;
  m.addDirichletInfiniteBoundaryConditions(sys);
  std::vector<double> mu = {1.0};
  std::vector<char> pin(n, 0);
  int pins = 0;
  for (int i = 0; i < n; i++) {
    double d = 0, o = 0;
    for (auto &e : sys.A.elems) { int r = e.first >> 32, c = e.first & 0xffffffff; double v = e.second.evaluate(mu); if (r == i && c == i) d = v; else if (r == i || c == i) o += v * v; }
    pin[i] = d == 1 && o == 0 && sys.b[i].evaluate(mu) == 0;
    pins += pin[i];
  }
  nk::check(pins == 3, "three nodes are pinned at zero");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (pin[i] && !pin[j])
    nk::cmp(p[i].x * p[i].x + p[i].y * p[i].y, ">=", p[j].x * p[j].x + p[j].y * p[j].y, "pinned nodes are the outermost ones");
}
