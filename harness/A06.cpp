// the four conjugate-gradient solvers
#include "alg.hpp"
static void run(int s, const MatCSRSymmetric &A, const Vec &b, Vec &x, double tol, uint32_t it, double w) {
  if (s == 0) conjugateGradientSolver(A, b, x, tol, it);
  else if (s == 1) preconditionedJacobiConjugateGradientSolver(A, b, x, tol, it);
  else if (s == 2) preconditionedSSORConjugateGradientSolver(A, b, x, w, tol, it);
  else preconditionedIncompleteCholeskyConjugateGradientSolver(A, b, x, tol, it);
}
static const char *SN[] = {"plain", "jacobi", "ssor", "cholesky"};
static SymMat fixed(int k, int s) {
  SymMat M;
  if (s == 1) {      // powers of two on the diagonal: their reciprocals are exact
    switch (k) {
    case 0: M.n = 2; M.e = {{{0, 0}, 4.0}, {{0, 1}, 1.0}, {{1, 1}, 8.0}}; break;
    case 1: M.n = 1; M.e = {{{0, 0}, 4.0}}; break;
    case 2: M.n = 2; M.e = {{{0, 0}, 2.0}, {{0, 1}, -1.0}, {{1, 1}, 1.0}}; break;
    case 3: M.n = 3; M.e = {{{0, 0}, 4.0}, {{0, 1}, 1.0}, {{1, 1}, 2.0}, {{1, 2}, 1.0}, {{2, 2}, 4.0}}; break;
    case 4: M.n = 3; M.e = {{{0, 0}, 4.0}, {{0, 1}, 1.0}, {{0, 2}, -1.0}, {{1, 1}, 2.0}, {{1, 2}, 1.0}, {{2, 2}, 8.0}}; break;
    default: M.n = 4; M.e = {{{0, 0}, 1.0}, {{0, 3}, 1.0}, {{1, 1}, 4.0}, {{1, 2}, -2.0}, {{2, 2}, 2.0}, {{3, 3}, 4.0}}; break;
    }
    return M;
  }
  switch (k) {
  case 0: M.n = 2; M.e = {{{0, 0}, 4.0}, {{0, 1}, 1.0}, {{1, 1}, 9.0}}; break;
  case 1: M.n = 1; M.e = {{{0, 0}, 4.0}}; break;
  case 2: M.n = 2; M.e = {{{0, 0}, 4.0}, {{0, 1}, 2.0}, {{1, 1}, 5.0}}; break;
  case 3: M.n = 3; M.e = {{{0, 0}, 4.0}, {{0, 1}, 2.0}, {{1, 1}, 5.0}, {{1, 2}, 2.0}, {{2, 2}, 5.0}}; break;
  case 4: M.n = 3; M.e = {{{0, 0}, 4.0}, {{0, 1}, 2.0}, {{0, 2}, -2.0}, {{1, 1}, 5.0}, {{1, 2}, 3.0}, {{2, 2}, 9.0}}; break;
  default: M.n = 4; M.e = {{{0, 0}, 1.0}, {{0, 3}, 1.0}, {{1, 1}, 4.0}, {{1, 2}, -2.0}, {{2, 2}, 5.0}, {{3, 3}, 5.0}}; break;
  }
  return M;
}
static Vec precond(int s, const MatCSRSymmetric &A, const SymMat &M, const Vec &r, double w) {
  Vec z(M.n);
  if (s == 0) z = r;
  else if (s == 1) for (int i = 0; i < M.n; i++) z[i] = r[i] / M.at(i, i);
  else if (s == 2) multSSORPreconditioner(A, z, r, w);
  else { MatCSRLowerTri L = incompleteCholeskyDecomposition(A); Vec t(M.n); mult(t, L, r); MatCSRUpperTri U(L); mult(z, U, t); }
  return z;
}
void nk_harness() {
  int part = nk_choose("part", 6);
  int s = nk_choose("solver", 4);
  std::string tag = std::string(SN[s]) + ": ";
  if (part == 0) {
    // the exact solution is a fixed point, whatever the matrix
    int k = nk_choose("matrix", 7);
    SymMat M;
    if (k < 6) M = fixed(k, s);
    else {
      double a = nk_real("r00", 0.5, 4), b = nk_real("r01", -3, 3), c = nk_real("r11", 0.5, 4);
      M.n = 2; M.e = {{{0, 0}, a * a}, {{0, 1}, a * b}, {{1, 1}, b * b + c * c}};
    }
    MatCOOSymmetric<double> coo(M.n); fill(coo, M, 0);
    MatCSRSymmetric A(coo);
    Vec x = vec("x", M.n, -8, 8), x0 = x, b = dmul(M, x);
    run(s, A, b, x, 1e-6, 1 + nk_choose("iters", 3), 1.5);
    for (int i = 0; i < M.n; i++) nk::eq(x[i], x0[i], tag + "exact start is kept");
  } else if (part == 1) {
    // converges within as many steps as unknowns: the returned vector meets the tolerance
    int k = nk_choose("matrix", 6);
    SymMat M = fixed(k, s);
    int n = M.n;
    MatCOOSymmetric<double> coo(n); fill(coo, M, 0);
    MatCSRSymmetric A(coo);
    Vec b(n), x(n);
    double t = nk_real("t", -8, 8);
    for (int i = 0; i < n; i++) b[i] = 1 + 0.5 * i;
    b[nk_choose("which", n)] = t;
    if (n == 2 && nk_thorough()) b[0] = nk_real("b0", 0.5, 8), b[1] = t;
    double tol = nk_choose("tol", 2) ? 1e-3 : 0.5;
    run(s, A, b, x, tol, n + 1, 1.25);
    Vec r = dmul(M, x); double e = 0;
    for (int i = 0; i < n; i++) e += (r[i] - b[i]) * (r[i] - b[i]);
    nk::cmp(e, "<", tol * tol, tag + "returned residual is below the tolerance", 1e-3 * tol * tol);
  } else if (part == 2) {
    // one step: exact minimisation along the preconditioned residual, from any start
    int k = nk_choose("matrix", 6);
    SymMat M = fixed(k, s);
    int n = M.n;
    MatCOOSymmetric<double> coo(n); fill(coo, M, 0);
    MatCSRSymmetric A(coo);
    Vec r0(n), x = vec("x", n, -2, 2), x0 = x, b = dmul(M, x0);
    int which = nk_choose("which", n);
    for (int i = 0; i < n; i++) r0[i] = i == which ? nk_real("r", 0.5, 8) : n == 2 || (nk_thorough() && i == (which + 1) % n) ? nk_real("s", -8, 8) : 1.5 - i;
    for (int i = 0; i < n; i++) b[i] += r0[i];
    double w = 1.25;
    Vec z0 = precond(s, A, M, r0, w);
    run(s, A, b, x, 1e-9, 1, w);
    Vec Az = dmul(M, z0);
    double num = 0, den = 0;
    for (int i = 0; i < n; i++) { num += r0[i] * z0[i]; den += z0[i] * Az[i]; }
    for (int i = 0; i < n; i++) nk::eq((x[i] - x0[i]) * den, num * z0[i], tag + "first step minimises along the preconditioned residual");
  } else if (part == 3) {
    // two steps: the residual is orthogonal to both search directions
    int k = 3 + nk_choose("matrix", 2);
    SymMat M = fixed(k, s);
    int n = M.n;
    MatCOOSymmetric<double> coo(n); fill(coo, M, 0);
    MatCSRSymmetric A(coo);
    Vec b(n), x = vec("x", n, -2, 2), r0(n);
    double t = nk_real("t", 1, 8);
    r0[0] = 1; r0[1] = 2; r0[2] = -1;
    int which = nk_choose("which", n + 1);
    if (which < n) r0[which] = t; else { for (auto &v : r0) v *= t; x = Vec(n); }
    b = dmul(M, x);
    for (int i = 0; i < n; i++) b[i] += r0[i];
    double w = 1.25;
    Vec z0 = precond(s, A, M, r0, w);
    run(s, A, b, x, 1e-9, 2, w);
    Vec r = dmul(M, x); for (int i = 0; i < n; i++) r[i] = b[i] - r[i];
    Vec z1 = precond(s, A, M, dmul(M, z0), w);
    double p0 = 0, p1 = 0;
    for (int i = 0; i < n; i++) { p0 += r[i] * z0[i]; p1 += r[i] * z1[i]; }
    nk::eq(p0, 0, tag + "two steps: residual orthogonal to the first direction");
    nk::eq(p1, 0, tag + "two steps: residual orthogonal to the second direction");
  } else if (part == 5) {
    // more unknowns: converges to the tolerance for every strength of the right-hand side
    int n = nk_thorough() ? 12 : 8;
    SymMat M = largemat(large(n, 2), 4, 0.125);
    MatCOOSymmetric<double> coo(n); fill(coo, M, 1);
    MatCSRSymmetric A(coo);
    Vec b(n), x(n);
    double t = nk_real("t", 1, 8);
    for (int i = 0; i < n; i++) b[i] = t * (1 + 0.5 * (i % 3));
    double tol = 0.001953125;
    run(s, A, b, x, tol, 2 * n, 1.25);
    Vec r = dmul(M, x); double e = 0;
    for (int i = 0; i < n; i++) e += (r[i] - b[i]) * (r[i] - b[i]);
    nk::cmp(e, "<", tol * tol, tag + "more unknowns: returned residual is below the tolerance", 1e-3 * tol * tol);
  } else {
    // no iterations allowed: the start vector is returned
    SymMat M = fixed(nk_choose("matrix", 6), s);
    MatCOOSymmetric<double> coo(M.n); fill(coo, M, 0);
    MatCSRSymmetric A(coo);
    Vec b = vec("b", M.n, -8, 8), x = vec("x", M.n, -8, 8), x0 = x, b0 = b;
    run(s, A, b, x, 1e-6, 0, 1.5);
    for (int i = 0; i < M.n; i++) { nk::eq(x[i], x0[i], tag + "no iterations: start vector kept"); nk::eq(b[i], b0[i], tag + "right-hand side unchanged"); }
  }
}
