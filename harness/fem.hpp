// shared pieces for the assembly harnesses
#pragma once
#include "msh.hpp"
#include "algebra/coo.hpp"
#include <map>
struct Shape { std::vector<Vector> p; std::vector<Tri> t; };
// meshes: 0..5 fixed ones stretched and shifted, 6 two triangles with a free corner, 7 a wheel of many triangles, 8 a grid of more than 256 nodes, 9 one of more than 65536 (no symbols)
inline Shape shape(int k) {
  Shape S;
  if (k < 6) {
    Topo T = topo(k);
    double sx = nk_real("sx", 0.5, 3), sy = nk_real("sy", 0.5, 3), dx = nk_real("dx", -9, 9), dy = nk_real("dy", -9, 9);
    for (auto &p : T.p) S.p.push_back(Vector(sx * p.x + dx, sy * p.y + dy));
    S.t = T.t;
  } else if (k == 6) {
    double ax = nk_real("ax", -9, 9), ay = nk_real("ay", 0.1, 9);
    S.p = {{0, 0}, {3, 0.5}, {1, -2}, {ax, ay + ax / 6}};
    S.t = {{0, 1, 3}, {1, 0, 2}};
  } else if (k == 9) {
    Topo T = grid(262, 262);
    S.p = T.p; S.t = T.t;
  } else if (k == 8) {
    Topo T = grid(nk_thorough() ? 30 : 17, 16);
    double dx = nk_real("dx", -9, 9), dy = nk_real("dy", -9, 9);
    for (auto &p : T.p) S.p.push_back(Vector(p.x + dx, p.y + dy));
    S.t = T.t;
  } else {
    int n = nk_thorough() ? 40 : 24;     // even
    double dx = nk_real("dx", -9, 9), dy = nk_real("dy", -9, 9), s = nk_real("s", 0.5, 3);
    S.p.push_back(Vector(dx, dy));
    for (int i = 0; i < n; i++) {        // a convex ring of exact points
      double q = (i % (n / 2)) * 2.0 / (n / 2) - 1, r = i < n / 2 ? 1 : -1;
      q = std::floor(q * 64) / 64;
      S.p.push_back(Vector(dx + s * r * (1 - q * q) * 4, dy + s * r * 2 * q * 4));
    }
    for (int i = 0; i < n; i++) S.t.push_back({0, 1 + i, 1 + (i + 1) % n});
  }
  return S;
}
typedef std::map<std::pair<int, int>, double> Dense;
// sum over triangles of el * integral of grad(phi_i) . grad(phi_j), for i <= j
inline Dense stiffness(const Shape &S, const std::vector<double> &el) {
  Dense K;
  for (size_t t = 0; t < S.t.size(); t++) {
    double D = orient(S.p[S.t[t][0]], S.p[S.t[t][1]], S.p[S.t[t][2]]);
    if (D < 0) D = -D;
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) {
      int i = S.t[t][a], j = S.t[t][b];
      if (i > j) continue;
      Vector ea = S.p[S.t[t][(a + 2) % 3]], eb = S.p[S.t[t][(b + 2) % 3]], fa = S.p[S.t[t][(a + 1) % 3]], fb = S.p[S.t[t][(b + 1) % 3]];
      double ux = ea.x - fa.x, uy = ea.y - fa.y, vx = eb.x - fb.x, vy = eb.y - fb.y;
      K[{i, j}] += el[t] * (ux * vx + uy * vy) / (2 * D);
    }
  }
  return K;
}
template <class W, class F> void compare(MatCOOSymmetric<W> &A, const Dense &K, const std::string &l, F value) {
  std::map<std::pair<int, int>, double> got;
  for (auto &e : A.elems) { int i = e.first >> 32, j = e.first & 0xffffffff; if (i > j) std::swap(i, j); got[{i, j}] = value(e.second); }
  for (auto &kv : K) { if (K.size() > 100000 && kv.first.first % 5 && kv.first.first < 65300) continue; auto it = got.find(kv.first); nk::eq(it == got.end() ? 0.0 : it->second, kv.second, l, 10); }
  for (auto &kv : got) if (!K.count(kv.first)) nk::eq(kv.second, 0, "nothing between nodes without a common triangle");
}
