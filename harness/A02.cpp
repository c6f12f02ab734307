// matrix-vector products on compressed symmetric / triangular storage
#include "alg.hpp"
// row and column numbers above 16 bits
static void wide() {
  int n = 140000;
  static const int at[][2] = {{3, 65539}, {4, 5}, {5, 65541}, {65539, 131075}, {65540, 65541}, {131075, 139999}, {0, 139999}};
  MatCOOSymmetric<double> coo(n);
  Vec x(n), w(n), r(n, 7.0);
  for (int i = 0; i < n; i++) { x[i] = i % 32 + 1; coo(i, i) = i % 4 + 1; }
  for (auto &a : at) for (int i : a) x[i] = nk::real(nk::nm("x", i), -30, 30);
  for (int i = 0; i < n; i++) w[i] = (i % 4 + 1) * x[i];
  double v[7];
  for (int k = 0; k < 7; k++) { v[k] = k + 2; coo(at[k][0], at[k][1]) = v[k]; }
  int kind = nk_choose("kind", 3);
  MatCSRSymmetric A(coo);
  for (int k = 0; k < 7; k++) { if (kind < 2) w[at[k][0]] += v[k] * x[at[k][1]]; if (kind != 1) w[at[k][1]] += v[k] * x[at[k][0]]; }
  if (kind == 0) mult(r, A, x);
  else if (kind == 1) { MatCSRUpperTri U(A); mult(r, U, x); }
  else { MatCSRLowerTri L(A); mult(r, L, x); }
  for (int i = 0; i < n; i++) nk::eq(r[i], w[i], "product with high row numbers");
}
void nk_harness() {
  if (nk_choose("wide", 2)) { wide(); return; }
  int np = nk_thorough() ? 20 : 14;
  int k = nk_choose("pattern", np + 1);
  Pat p = k < np ? pattern(k) : large(nk_thorough() ? 600 : 300, 3);
  SymMat M = k < np ? symmat(p, -20, 20, -20, 20) : largemat(p, 4, 0.5);
  Vec x = vec("x", p.n, -30, 30);
  MatCOOSymmetric<double> coo(p.n);
  fill(coo, M, nk_choose("order", 2));
  MatCSRSymmetric A(coo);
  Vec r(p.n), keep = x;
  int dirty = nk_choose("dirty", 2);                    // what the result vector held before must not matter
  for (int i = 0; i < p.n; i++) r[i] = dirty ? nk::real(nk::nm("old", i), -9, 9) : 0;
  int kind = nk_choose("kind", 4);
  if (kind == 0) {
    mult(r, A, x);
    Vec w = dmul(M, x);
    for (int i = 0; i < p.n; i++) nk::eq(r[i], w[i], "symmetric product");
  } else if (kind == 1) {
    MatCSRUpperTri U(A);
    mult(r, U, x);
    for (int i = 0; i < p.n; i++) { double w = 0; for (int j = i; j < p.n; j++) w += M.at(i, j) * x[j]; nk::eq(r[i], w, "upper product"); }
  } else if (kind == 2) {
    MatCSRLowerTri L(A);
    mult(r, L, x);
    for (int i = 0; i < p.n; i++) { double w = 0; for (int j = 0; j <= i; j++) w += M.at(i, j) * x[j]; nk::eq(r[i], w, "lower product"); }
  } else {
    // symmetric: y.(A x) == x.(A y)
    Vec y = vec("y", p.n, -30, 30), s(p.n);
    mult(r, A, x); mult(s, A, y);
    nk::eq(dot(y, r), dot(x, s), "symmetric bilinear form");
  }
  for (int i = 0; i < p.n; i++) nk::eq(x[i], keep[i], "operand unchanged");
}
