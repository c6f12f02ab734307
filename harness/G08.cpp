// polygon in polygon
#include "geo.hpp"
static int sg(double v, double m) { if (v >= m) return 1; if (v <= -m) return -1; nk_drop(); return 0; }
struct Pair { std::vector<Vector> p, q; bool in; };
static Pair pairs(int k) {
  std::vector<Vector> L = {{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}, S = {{0, 0}, {4, 0}, {4, 4}, {0, 4}};
  std::vector<Vector> U = {{0, 0}, {6, 0}, {6, 4}, {4, 4}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}, UB = {{0, 0}, {6, 0}, {6, 4}, {0, 4}};
  std::vector<Vector> N = {{2, 2}, {4, 2}, {4, 4}, {2, 4}};
  switch (k) {
  case 0: return {S, L, true};
  case 1: return {L, S, false};
  case 2: return {UB, U, true};
  case 3: return {U, UB, false};        // every corner of the hull is a corner of the U
  case 4: return {U, N, false};         // the notch: every corner on the boundary, the inside outside
  case 5: return {UB, N, true};
  case 6: return {U, {{0, 0}, {6, 0}, {6, 2}, {0, 2}}, true};
  case 7: return {U, {{1, 1}, {5, 1}, {5, 3}, {1, 3}}, false};
  case 8: return {{{0, 0}, {4, 4}, {8, 0}, {4, 1}}, {{0, 0}, {4, 4}, {8, 0}}, false};
  case 9: return {{{0, 0}, {4, 4}, {8, 0}}, {{0, 0}, {4, 4}, {8, 0}, {4, 1}}, true};
  case 10: return {S, {{1, 1}, {2, 1}, {2, 2}}, true};
  case 11: return {S, {{1, 1}, {5, 1}, {2, 2}}, false};
  case 12: return {S, {{5, 5}, {7, 5}, {7, 7}}, false};
  case 13: return {{{1, 1}, {2, 1}, {2, 2}}, S, false};
  case 14: return {{{0, 3}, {-1, 1}, {-3, 0}, {-1, -1}, {0, -3}, {1, -1}, {3, 0}, {1, 1}}, {{0, 3}, {-3, 0}, {0, -3}, {3, 0}}, false};
  case 15: return {{{0, 3}, {-1, 1}, {-3, 0}, {-1, -1}, {0, -3}, {1, -1}, {3, 0}, {1, 1}}, {{0, 3}, {-1, 1}, {0, -3}, {1, 1}}, true};
  case 16: return {{{0, 0}, {1, 2}, {2, 0}, {3, 2}, {4, 0}, {4, 3}, {0, 3}}, {{1, 2}, {3, 2}, {4, 3}, {0, 3}}, true};
  default: return {{{0, 0}, {1, 2}, {2, 0}, {3, 2}, {4, 0}, {4, 3}, {0, 3}}, {{2, 0}, {4, 0}, {4, 3}}, false};
  }
}
void nk_harness() {
  int part = nk_choose("part", 4);
  if (part == 3) { nikfemm::Polygon P(poly(nk_choose("polygon", npoly()))); Vector d = pt("shift", -9, 9); P.translate(d); nk::check(P.contains(P), "a polygon contains itself"); return; }
  if (part == 0) {             // fixed pairs, any stretching and shift, every starting corner
    Pair c = pairs(nk_choose("pair", 18));
    int z = nk_choose("stretch", 5);
    double e = z == 3 ? 0x1p-13 : z == 4 ? 1024 : 1;          // the last two are changes of unit
    double sx = z == 1 ? 0.5 : z == 2 ? 3 : e, sy = z == 1 ? 2 : z == 2 ? 0.25 : e, ox = e * nk_real("ox", -9, 9), oy = e * nk_real("oy", -9, 9);
    bool full = nk_thorough() || z < 3;
    if (full && nk_choose("mirror", 2)) sx = -sx;
    for (auto *v : {&c.p, &c.q}) for (auto &p : *v) p = Vector(sx * p.x + ox, sy * p.y + oy);
    std::rotate(c.p.begin(), c.p.begin() + (full ? nk_choose("first corner", 3) : 1), c.p.end());
    std::rotate(c.q.begin(), c.q.begin() + (full ? nk_choose("first corner of the other", 3) : 2), c.q.end());
    if (full && nk_choose("reverse", 2)) std::reverse(c.q.begin(), c.q.end());
    nk::check(nikfemm::Polygon(c.p).contains(nikfemm::Polygon(c.q)) == c.in, c.in ? "nested with shared corners or without" : "leaves the other polygon");
  } else if (part == 1) {      // L: one corner in each arm, the edge between them may cut the reflex corner
    std::vector<Vector> L = {{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 4}, {0, 4}};
    int e = nk_choose("first corner", 3), r = nk_choose("reverse", 2);
    Vector d = pt("shift", 0, 0.5);
    double o0 = nk_choose("edge", 5) * 0.25;                 // how far out the edge lies
    std::vector<Vector> Q = {{0.5, 0.25}, {2.75, o0 + 0.25}, {o0 + 0.25, 2.5}};
    for (auto &q : Q) q = Vector(q.x + d.x, q.y + d.y);
    int o = sg(orient(Q[1], Q[2], Vector(2, 2)), 1e-3);
    std::rotate(Q.begin(), Q.begin() + e, Q.end()); if (r) std::reverse(Q.begin(), Q.end());
    nk::check(nikfemm::Polygon(L).contains(nikfemm::Polygon(Q)) == (o < 0), o < 0 ? "triangle round the reflex corner" : "edge across the reflex corner");
  } else {                     // convex outer polygon, a triangle or quadrilateral shifted about
    int k = nk_choose("polygon", 4);
    std::vector<Vector> P = poly(k == 0 ? 1 : k == 1 ? 10 : k == 2 ? 11 : 2);
    Vector d = pt("shift", -5, 6);
    std::vector<Vector> Q = {{0, 0}, {1, 0.25}, {0.25, 0.75}};
    if (nk_choose("corners", 2)) Q.push_back(Vector(-0.5, 0.5));
    for (auto &q : Q) q = Vector(q.x + d.x, q.y + d.y);
    double A = 0; for (size_t i = 0; i < P.size(); i++) A += P[i].x * P[(i + 1) % P.size()].y - P[i].y * P[(i + 1) % P.size()].x;
    bool in = true;
    for (size_t i = 0; i < P.size() && in; i++) for (auto &q : Q) in = (sg(orient(P[i], P[(i + 1) % P.size()], q), 1e-3) * (A > 0 ? 1 : -1) > 0) && in;
    double e = nk_thorough() || k == 1 ? unit() : 1;
    nk::check(nikfemm::Polygon(e * P).contains(nikfemm::Polygon(e * Q)) == in, in ? "inside a convex polygon" : "outside a convex polygon");
  }
}
