// vector kernels of every length, including a result that is one of the operands
#include "alg.hpp"
// a long vector of fixed numbers with a few free ones
static Vec far(int n, const char *name, int seed) {
  Vec v(n);
  for (int i = 0; i < n; i++) v[i] = ((i * 7 + seed) % 16 + 1) * 0.5;
  for (int i : {0, 1030, 65535, 65536, 65541, n - 1}) v[i] = nk::real(nk::nm(name, i), 0.5, 9);
  return v;
}
void nk_harness() {
  static const int lens[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 0, 127, 128, 129, 257};
  int nl = nk_thorough() ? 23 : 19, lk = nk_choose("len", nl + 1), n = lk < nl ? lens[lk] : 66001;
  int op = nk_choose("op", 14);
  int alias = nk_choose("alias", 3);                   // result distinct / first operand / second operand
  Vec a = lk < nl ? vec("a", n, -9, 9) : far(n, "a", 1), b = lk < nl ? vec("b", n, 0.5, 9) : far(n, "b", 2), a0 = a, b0 = b;
  double k = nk_real("k", 0.25, 7);
  if (nk_choose("ksign", 2)) k = -k;
  Vec out(n, 5.0);
  Vec &r = alias == 0 ? out : alias == 1 ? a : b;
  auto each = [&](const char *l, auto f) { for (int i = 0; i < n; i++) nk::eq(r[i], f(a0[i], b0[i]), l); };
  auto intact = [&]() {
    for (int i = 0; i < n; i++) { if (alias != 1) nk::eq(a[i], a0[i], "first operand unchanged"); if (alias != 2) nk::eq(b[i], b0[i], "second operand unchanged"); }
  };
  switch (op) {
  case 0: if (alias == 2) nk_drop(); mult(r, k, a); each("scale", [&](double x, double) { return k * x; }); break;
  case 1: mult(r, a, b); each("elementwise product", [&](double x, double y) { return x * y; }); break;
  case 2: add(r, a, b); each("sum", [&](double x, double y) { return x + y; }); break;
  case 3: sub(r, a, b); each("difference", [&](double x, double y) { return x - y; }); break;
  case 4: if (alias == 2) nk_drop(); div(r, a, k); for (int i = 0; i < n; i++) nk::eq(r[i] * k, a0[i], "quotient by scalar"); break;
  case 5: div(r, a, b); for (int i = 0; i < n; i++) nk::eq(r[i] * b0[i], a0[i], "elementwise quotient"); break;
  case 6: if (alias == 2) nk_drop(); sub(r, a, k); each("minus scalar", [&](double x, double) { return x - k; }); break;
  case 7: if (alias == 2) nk_drop(); add(r, a, k); each("plus scalar", [&](double x, double) { return x + k; }); break;
  case 8: addScaled(r, a, k, b); each("a + k b", [&](double x, double y) { return x + k * y; }); break;
  case 9: if (alias == 2) nk_drop(); copy(r, a); each("copy", [&](double x, double) { return x; }); break;
  case 10: { if (alias) nk_drop(); double w = 0; for (int i = 0; i < n; i++) w += a0[i] * a0[i]; nk::eq(squareSum(a), w, "square sum"); break; }
  case 11: { if (alias) nk_drop(); double w = 0; for (int i = 0; i < n; i++) w += a0[i] * b0[i]; nk::eq(dot(a, b), w, "dot product"); break; }
  case 12: { if (alias) nk_drop(); double w = 0; for (int i = 0; i < n; i++) w += a0[i] * a0[i]; double q = norm(a); nk::eq(q * q, w, "norm squared"); nk::cmp(q, ">=", 0, "norm nonnegative"); break; }
  case 13: {
    if (alias) nk_drop();
    std::vector<Vector> v(n);
    for (int i = 0; i < n; i++) v[i] = Vector(a0[i], b0[i]);
    Vec q = element_wise_norm(v);
    nk::check((int)q.size() == n, "element-wise norm length");
    for (int i = 0; i < n; i++) { nk::eq(q[i] * q[i], a0[i] * a0[i] + b0[i] * b0[i], "element-wise norm squared"); nk::cmp(q[i], ">=", 0, "element-wise norm nonnegative"); }
    break;
  }
  }
  intact();
}
