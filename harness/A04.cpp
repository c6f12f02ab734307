// SSOR preconditioner: z solves (D + wL) D^-1 (D + wU) z = w (2-w) r
#include "alg.hpp"
// row numbers above 16 bits
static void wide() {
  int n = 140000;
  static const int at[][2] = {{3, 65539}, {4, 5}, {5, 65541}, {65539, 131075}, {65540, 65541}, {131075, 139999}, {0, 139999}};
  MatCOOSymmetric<double> coo(n);
  Vec D(n), r(n), z(n, 7.0), t(n), s(n);
  for (int i = 0; i < n; i++) { r[i] = i % 8 - 3; coo(i, i) = D[i] = 1 << i % 3; }
  for (auto &a : at) for (int i : a) r[i] = nk::real(nk::nm("r", i), -5, 5);
  for (int k = 0; k < 7; k++) coo(at[k][0], at[k][1]) = (k + 1) * 0.25;
  MatCSRSymmetric A(coo);
  double w = 1.5;
  multSSORPreconditioner(A, z, r, w);
  for (int i = 0; i < n; i++) t[i] = D[i] * z[i];
  for (int k = 0; k < 7; k++) t[at[k][0]] += w * (k + 1) * 0.25 * z[at[k][1]];
  for (int i = 0; i < n; i++) { t[i] = t[i] / D[i]; s[i] = D[i] * t[i]; }
  for (int k = 0; k < 7; k++) s[at[k][1]] += w * (k + 1) * 0.25 * t[at[k][0]];
  for (int i = 0; i < n; i++) nk::eq(s[i], w * (2 - w) * r[i], "preconditioner times its result, high row numbers");
}
void nk_harness() {
  if (nk_choose("wide", 2)) { wide(); return; }
  static const int ps[] = {0, 1, 2, 3, 4, 5, 6, 7, 11, 13, 8, 9};
  int np = nk_thorough() ? 12 : 9, k = nk_choose("pattern", np + 1);
  Pat p = k < np ? pattern(ps[k]) : large(nk_thorough() ? 80 : 40, 3);
  SymMat M = k < np ? symmat(p, -4, 4, 1, 9) : largemat(p, 4, 0.125);
  Vec r = vec("r", p.n, -5, 5), r0 = r;
  double w = k < np ? nk_real("omega", 0.125, 1.875) : 1.25;
  MatCOOSymmetric<double> coo(p.n);
  fill(coo, M, 0);
  MatCSRSymmetric A(coo);
  Vec z(p.n, nk_choose("dirty", 2) ? 7.0 : 0.0);
  multSSORPreconditioner(A, z, r, w);
  // multiply back
  Vec t(p.n), s(p.n);
  for (int i = 0; i < p.n; i++) { t[i] = M.at(i, i) * z[i]; for (int j = i + 1; j < p.n; j++) if (M.e.count({i, j})) t[i] += w * M.at(i, j) * z[j]; }
  for (int i = 0; i < p.n; i++) t[i] = t[i] / M.at(i, i);
  for (int i = 0; i < p.n; i++) { s[i] = M.at(i, i) * t[i]; for (int j = 0; j < i; j++) if (M.e.count({j, i})) s[i] += w * M.at(i, j) * t[j]; }
  for (int i = 0; i < p.n; i++) nk::eq(s[i], w * (2 - w) * r0[i], "preconditioner times its result");
  for (int i = 0; i < p.n; i++) nk::eq(r[i], r0[i], "operand unchanged");
}
