// Cholesky-type preconditioner: exact inverse on full patterns, positive definite on every pattern
#include "alg.hpp"
#include <cmath>
static void apply(const MatCSRLowerTri &L, const Vec &r, Vec &z) {
  Vec t(r.size());
  mult(t, L, r);
  MatCSRUpperTri U(L);
  mult(z, U, t);
}
// A = R^T R for an upper triangular R with a positive diagonal
static SymMat from_factor(int n, double (&R)[6][6], bool zeros) {
  SymMat M; M.n = n;
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
    R[i][j] = i == j ? nk::real(nk::nm("r", i, j), 0.5, 4) : nk::real(nk::nm("r", i, j), -3, 3);
    (void)zeros;
  }
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double s = 0; for (int k = 0; k <= i; k++) s += R[k][i] * R[k][j]; M.e[{i, j}] = s; }
  return M;
}
void nk_harness() {
  int part = nk_choose("part", 5);
  if (part == 0) {
    int n = 1 + nk_choose("n", nk_thorough() ? 5 : 4);
    double R[6][6];
    SymMat M = from_factor(n, R, false);
    MatCOOSymmetric<double> coo(n); fill(coo, M, 0);
    MatCSRSymmetric A(coo);
    Vec r = vec("b", n, -5, 5), z(n);
    MatCSRLowerTri L = incompleteCholeskyDecomposition(A);
    apply(L, r, z);
    Vec back = dmul(M, z);
    for (int i = 0; i < n; i++) nk::eq(back[i], r[i], "full pattern: preconditioner is the inverse");
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) nk::eq(A(i, j), M.at(i, j), "matrix unchanged");
  } else if (part == 1) {
    // general symmetric positive definite 2x2
    double a = nk_real("a", 0.5, 8), b = nk_real("b", -4, 4), c = nk_real("c", 0.5, 8);
    nk_assume(a * c - b * b, ">=", 0.125);
    SymMat M; M.n = 2; M.e = {{{0, 0}, a}, {{0, 1}, b}, {{1, 1}, c}};
    MatCOOSymmetric<double> coo(2); fill(coo, M, 0);
    MatCSRSymmetric A(coo);
    Vec r = vec("b", 2, -5, 5), z(2);
    apply(incompleteCholeskyDecomposition(A), r, z);
    Vec back = dmul(M, z);
    for (int i = 0; i < 2; i++) nk::eq(back[i], r[i], "2x2: preconditioner is the inverse");
  } else if (part == 2) {
    // diagonal matrix and block diagonal: exact as well
    double a = nk_real("a", 0.5, 3), b = nk_real("b", -2, 2), c = nk_real("c", 0.5, 3), d = nk_real("d", 0.5, 3), e = nk_real("e", 0.5, 3), f = nk_real("f", -2, 2), g = nk_real("g", 0.5, 3);
    SymMat M; M.n = 5;
    M.e = {{{0, 0}, a * a}, {{0, 3}, a * b}, {{3, 3}, b * b + c * c}, {{1, 1}, d * d}, {{2, 2}, e * e}, {{2, 4}, e * f}, {{4, 4}, f * f + g * g}};
    MatCOOSymmetric<double> coo(5); fill(coo, M, 1);
    MatCSRSymmetric A(coo);
    Vec r = vec("b", 5, -5, 5), z(5);
    apply(incompleteCholeskyDecomposition(A), r, z);
    Vec back = dmul(M, z);
    for (int i = 0; i < 5; i++) nk::eq(back[i], r[i], "block diagonal: preconditioner is the inverse");
  } else if (part == 4) {
    // a long chain: the kept entries are those of the inverse factor
    int n = nk_thorough() ? 120 : 40;
    Vec p(n), q(n);
    uint32_t s = 3;
    for (int i = 0; i < n; i++) { p[i] = 1 + 0.25 * (lcg(s) % 4); q[i] = 0.25 * ((int)(lcg(s) % 5) - 2); }
    int which = nk_choose("which", 3) * (n - 2) / 2;
    p[which] = nk_real("p", 0.5, 3); q[which] = nk_real("q", -2, 2);
    SymMat M; M.n = n;
    for (int i = 0; i < n; i++) { M.e[{i, i}] = p[i] * p[i] + (i ? q[i - 1] * q[i - 1] : 0.0); if (i + 1 < n) M.e[{i, i + 1}] = p[i] * q[i]; }
    MatCOOSymmetric<double> coo(n); fill(coo, M, 2);
    MatCSRSymmetric A(coo);
    MatCSRLowerTri L = incompleteCholeskyDecomposition(A);
    for (int i = 0; i < n; i++) nk::eq(L(i, i) * p[i], 1, "long chain: inverse factor diagonal");
    for (int i = 0; i + 1 < n; i++) nk::eq(L(i, i + 1) * p[i] * p[i + 1], -q[i], "long chain: inverse factor off-diagonal");
  } else {
    // sparse chain (no fill-in): r.z is positive for every nonzero r, and pairing is symmetric
    double p[5], q[5]; int n = 3 + nk_choose("n", 2);
    for (int i = 0; i < n; i++) { p[i] = nk::real(nk::nm("p", i), 0.5, 3); q[i] = i + 1 < n ? nk::real(nk::nm("q", i), -2, 2) : 0; }
    SymMat M; M.n = n;
    for (int i = 0; i < n; i++) { M.e[{i, i}] = p[i] * p[i] + (i ? q[i - 1] * q[i - 1] : 0.0); if (i + 1 < n) M.e[{i, i + 1}] = p[i] * q[i]; }
    MatCOOSymmetric<double> coo(n); fill(coo, M, 2);
    MatCSRSymmetric A(coo);
    MatCSRLowerTri L = incompleteCholeskyDecomposition(A);
    Vec r = vec("b", n, -5, 5), s = vec("c", n, -5, 5), z(n), y(n);
    apply(L, r, z); apply(L, s, y);
    nk::eq(dot(s, z), dot(r, y), "chain: symmetric preconditioner");
    // the chain factor is exact, and so are the kept entries of its inverse
    for (int i = 0; i < n; i++) nk::eq(L(i, i) * p[i], 1, "chain: inverse factor diagonal");
    for (int i = 0; i + 1 < n; i++) nk::eq(L(i, i + 1) * p[i] * p[i + 1], -q[i], "chain: inverse factor off-diagonal");
  }
}
