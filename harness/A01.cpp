// coordinate-format builder and its conversion to compressed rows: every entry is found again
#include "alg.hpp"
static void basic() {
  int np = nk_thorough() ? 20 : 14;
  Pat p = pattern(nk_choose("pattern", np));
  SymMat M = symmat(p, -50, 50, -50, 50);
  int how = nk_choose("order", 3);
  MatCOOSymmetric<double> coo(p.n);
  fill(coo, M, how);
  for (int i = 0; i < p.n; i++) for (int j = i; j < p.n; j++) if (M.e.count({i, j})) nk::eq(coo(i, j), M.at(i, j), "coo entry read back");
  MatCSRSymmetric A(coo);
  MatCSRSymmetric B(A);
  MatCSRUpperTri U(A);
  MatCSRLowerTri L(U);
  nk::check((int)A.m == p.n, "dimension");
  for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) {
    nk::eq(A(i, j), M.at(i, j), "entry of the converted matrix");
    nk::eq(B(i, j), M.at(i, j), "entry of the copied matrix");
    nk::eq(L(i, j), M.at(i, j), "entry after retyping the matrix");
  }
}
static void accumulate() {
  // repeated updates of one entry accumulate; untouched entries start from zero
  int n = 4;
  MatCOOSymmetric<double> coo(n);
  double a = nk_real("a", -9, 9), b = nk_real("b", -9, 9), c = nk_real("c", -9, 9);
  for (int i = 0; i < n; i++) coo(i, i) += 1.0;
  int i = nk_choose("i", n), j = i + nk_choose("dj", n - i);
  coo(i, j) += a;
  coo(0, 3) += c;
  coo(i, j) -= b;
  double want = (i == j ? 1.0 : 0.0) + a - b + ((i == 0 && j == 3) ? c : 0.0);
  nk::eq(coo(i, j), want, "accumulated entry");
  MatCSRSymmetric A(coo);
  nk::eq(A(i, j), want, "accumulated entry converted");
  nk::eq(A(j, i), want, "accumulated entry converted, transposed");
  for (int r = 0; r < n; r++) for (int s = r; s < n; s++) if (!(r == i && s == j) && !(r == 0 && s == 3)) nk::eq(A(r, s), r == s ? 1.0 : 0.0, "untouched entry");
}
static void lower_rejected() {
  MatCOOSymmetric<double> coo(5);
  bool threw = false;
  int i = 1 + nk_choose("i", 4), j = nk_choose("j", i);
  try { coo(i, j) = 1; } catch (std::exception &) { threw = true; }
  nk::check(threw, "entry below the diagonal is rejected");
}
static void wide() {
  // indices above 16 bits: rows and columns must not be confused
  int n = 66000;
  MatCOOSymmetric<double> coo(n);
  for (int i = 0; i < n; i++) coo(i, i) = 2;
  int at[5][2] = {{0, 65537}, {1, 65536}, {1, 65999}, {65536, 65999}, {464, 65535}};
  double v[5];
  for (int k : order(5, nk_choose("order", 3))) { v[k] = nk::real(nk::nm("w", k), -5, 5); coo(at[k][0], at[k][1]) = v[k]; }
  MatCSRSymmetric A(coo);
  for (int k = 0; k < 5; k++) { nk::eq(A(at[k][0], at[k][1]), v[k], "wide index"); nk::eq(A(at[k][1], at[k][0]), v[k], "wide index transposed"); }
  nk::eq(A(0, 1), 0, "wide absent"); nk::eq(A(65536, 65537), 0, "wide absent"); nk::eq(A(464, 65999), 0, "wide absent");
  nk::eq(A(65999, 65999), 2, "wide diagonal");
}
static void huge() {
  // indices above 24 bits
  int n = (1 << 24) + 70007;
  MatCOOSymmetric<double> coo(n);
  int at[8][2] = {{0, n - 1}, {1, 1 << 24}, {3, 131075}, {65539, 131075}, {131075, 131076}, {n - 2, n - 1}, {7, n - 1 - (1 << 24)}, {n - 1, n - 1}};
  double v[8];
  for (int k : order(8, nk_choose("order", 3))) { v[k] = nk::real(nk::nm("w", k), -5, 5); coo(at[k][0], at[k][1]) = v[k]; }
  MatCSRSymmetric A(coo);
  for (int k = 0; k < 8; k++) { nk::eq(A(at[k][0], at[k][1]), v[k], "wide index"); nk::eq(A(at[k][1], at[k][0]), v[k], "wide index transposed"); }
  nk::eq(A(0, 70006), 0, "wide absent"); nk::eq(A(1, 1 << 23), 0, "wide absent"); nk::eq(A(3, 3), 0, "wide absent"); nk::eq(A(131075, 131077), 0, "wide absent");
}
static void missing_diagonal() {
  // rows without a stored diagonal entry read as zero there
  int n = 5, mask = nk_choose("mask", 32);
  MatCOOSymmetric<double> coo(n);
  double v[5];
  for (int i = 0; i < n; i++) if (mask >> i & 1) { v[i] = nk::real(nk::nm("d", i), -5, 5); coo(i, i) = v[i]; } else v[i] = 0;
  double o1 = nk_real("o1", -5, 5), o2 = nk_real("o2", -5, 5), o3 = nk_real("o3", -5, 5);
  coo(0, 1) = o1; coo(1, 4) = o2; coo(2, 3) = o3;
  MatCSRSymmetric A(coo);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    int a = std::min(i, j), b = std::max(i, j);
    double w = a == b ? v[a] : a == 0 && b == 1 ? o1 : a == 1 && b == 4 ? o2 : a == 2 && b == 3 ? o3 : 0;
    nk::eq(A(i, j), w, "matrix with absent diagonal entries");
  }
}
void nk_harness() {
  switch (nk_choose("part", 5)) {
  case 0: basic(); break;
  case 1: accumulate(); break;
  case 2: lower_rejected(); break;
  case 3: if (nk_choose("width", 2)) huge(); else wide(); break;
  case 4: missing_diagonal(); break;
  }
}
