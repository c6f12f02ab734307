// shared pieces for the linear-algebra harnesses
#pragma once
#include "sym.h"
#include <map>
#include <set>
#include <vector>
#include "algebra/coo.hpp"
#include "algebra/csr.hpp"
#include "algebra/math.hpp"
#include "algebra/non_linear.hpp"
#include "algebra/solvers.hpp"
#include "algebra/system.hpp"
using namespace nikfemm;
typedef std::vector<double> Vec;
typedef std::pair<int, int> IJ;
struct Pat { int n; std::vector<IJ> off; const char *name; };
inline uint32_t lcg(uint32_t &s) { s = s * 1664525u + 1013904223u; return s >> 8; }
// structural families: every one is explored
inline Pat pattern(int k) {
  Pat p; p.name = "";
  auto full = [&](int n) { p.n = n; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) p.off.push_back({i, j}); };
  auto band = [&](int n, int w) { p.n = n; for (int i = 0; i < n; i++) for (int j = i + 1; j < n && j <= i + w; j++) p.off.push_back({i, j}); };
  auto rnd = [&](int n, uint32_t s, int pct) { p.n = n; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if ((int)(lcg(s) % 100) < pct) p.off.push_back({i, j}); };
  switch (k) {
  case 0: p.n = 1; break;
  case 1: full(2); break;
  case 2: p.n = 3; break;                                     // diagonal only
  case 3: full(3); break;
  case 4: full(4); break;
  case 5: band(6, 1); break;
  case 6: p.n = 6; for (int j = 1; j < 6; j++) p.off.push_back({0, j}); break;         // arrow, dense first row
  case 7: p.n = 6; for (int j = 0; j < 5; j++) p.off.push_back({j, 5}); break;         // arrow, dense last column
  case 8: rnd(7, 11, 40); break;
  case 9: rnd(9, 5, 30); break;
  case 10: band(10, 2); break;
  case 11: p.n = 5; p.off = {{0, 4}, {1, 3}}; break;          // empty rows
  case 12: rnd(12, 77, 35); break;
  case 13: full(5); break;
  case 14: full(6); break;
  default: rnd(14, 1000 + k, 30); break;
  }
  return p;
}
// a large pattern: a band and a dense first row
inline Pat large(int n, int w) {
  Pat p; p.n = n; p.name = "large";
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i == 0 || j <= i + w) p.off.push_back({i, j});
  return p;
}
inline std::vector<int> order(int n, int how) {      // insertion orders
  std::vector<int> o(n);
  for (int i = 0; i < n; i++) o[i] = how == 1 ? n - 1 - i : i;
  if (how == 2) { uint32_t s = 99 + n; for (int i = n - 1; i > 0; i--) std::swap(o[i], o[lcg(s) % (i + 1)]); }
  return o;
}
struct SymMat {                                      // a dense symbolic oracle of a symmetric sparse matrix
  int n; std::map<IJ, double> e;
  double at(int i, int j) const { if (i > j) std::swap(i, j); auto it = e.find({i, j}); return it == e.end() ? 0.0 : it->second; }
};
inline SymMat symmat(const Pat &p, double lo, double hi, double dlo, double dhi) {
  SymMat M; M.n = p.n;
  for (int i = 0; i < p.n; i++) M.e[{i, i}] = nk::real(nk::nm("d", i), dlo, dhi);
  for (auto &o : p.off) M.e[o] = nk::real(nk::nm("a", o.first, o.second), lo, hi);
  return M;
}
// fixed values for it, with the given range of the diagonal
inline SymMat largemat(const Pat &p, double diag, double k) {
  SymMat M; M.n = p.n;
  uint32_t s = 7;
  for (int i = 0; i < p.n; i++) M.e[{i, i}] = diag + 0.25 * (lcg(s) % 5);
  for (auto &o : p.off) M.e[o] = k * ((int)(lcg(s) % 9) - 4 ? (int)(lcg(s) % 7) - 3.5 : 1);
  return M;
}
inline void fill(MatCOOSymmetric<double> &coo, const SymMat &M, int how) {
  std::vector<std::pair<IJ, double>> v(M.e.begin(), M.e.end());
  for (int i : order(v.size(), how)) coo(v[i].first.first, v[i].first.second) = v[i].second;
}
inline Vec vec(const char *b, int n, double lo, double hi) { Vec v(n); for (int i = 0; i < n; i++) v[i] = nk::real(nk::nm(b, i), lo, hi); return v; }
inline Vec dmul(const SymMat &M, const Vec &x) {
  Vec r(M.n, 0.0);
  for (auto &kv : M.e) {
    int i = kv.first.first, j = kv.first.second;
    r[i] += kv.second * x[j];
    if (i != j) r[j] += kv.second * x[i];
  }
  return r;
}
