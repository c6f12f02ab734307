// shared pieces for the geometry harnesses
#pragma once
#include "sym.h"
#include <algorithm>
#include <cmath>
#include <vector>
#include <array>
#include "geometry/vector.hpp"
#include "geometry/common.hpp"
#include "geometry/segment.hpp"
#include "geometry/polygon.hpp"
#include "geometry/circle.hpp"
using namespace nikfemm;
inline Vector pt(const std::string &n, double lo, double hi) { double x = nk::real(n + "x", lo, hi); double y = nk::real(n + "y", lo, hi); return Vector(x, y); }
inline double orient(const Vector &a, const Vector &b, const Vector &c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
// case split on the sign of v, kept away from zero by m; explored alternatives: -1, +1
inline int side(const char *name, double v, double m) {
  if (nk_choose(name, 2)) { nk_assume(v, ">=", m); return 1; }
  nk_assume(v, "<=", -m); return -1;
}
// the unit of length: nothing a polygon or a segment is asked about may depend on it (powers of two: scaling is exact)
inline double unit() { int k = nk_choose("unit", 3); return k == 0 ? 1 : k == 1 ? 0x1p-13 : 1024; }
inline std::vector<Vector> operator*(double k, std::vector<Vector> v) { for (auto &p : v) p = Vector(k * p.x, k * p.y); return v; }
inline Vector sized(double k, const Vector &p) { return Vector(k * p.x, k * p.y); }
inline Vector along(const Vector &a, const Vector &b, double t) { return Vector(a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)); }
// catalogue of simple polygons with exact (dyadic) vertices
inline int npoly() { return nk_thorough() ? 16 : 12; }
inline std::vector<Vector> poly(int k) {
  switch (k) {
  case 0: return {{0, 0}, {4, 0}, {0, 3}};                                                   // right triangle
  case 1: return {{-1, -1}, {3, -1}, {3, 2}, {-1, 2}};                                       // rectangle, counter-clockwise
  case 2: return {{0, 2}, {2, 0}, {0, -2}, {-2, 0}};                                         // diamond, clockwise
  case 3: return {{0, 0}, {4, 0}, {4, 1}, {1, 1}, {1, 4}, {0, 4}};                           // L
  case 4: return {{0, 0}, {6, 0}, {6, 4}, {5, 4}, {5, 1}, {1, 1}, {1, 4}, {0, 4}};           // U
  case 5: return {{0, 3}, {-1, 1}, {-3, 0}, {-1, -1}, {0, -3}, {1, -1}, {3, 0}, {1, 1}};     // star
  case 6: return {{0, 0}, {2, 0}, {4, 0}, {4, 2}, {4, 4}, {0, 4}, {0, 2}};                   // collinear vertices
  case 7: return {{0, 0}, {1, 2}, {2, 0}, {3, 2}, {4, 0}, {4, 3}, {0, 3}};                   // saw teeth
  case 8: return {{0, 0}, {4, 4}, {8, 0}, {4, 1}};                                           // arrow head
  case 9: return {{-3, 1}, {-1, 1}, {-1, 2}, {1, 2}, {1, 1}, {3, 1}, {3, -1}, {1, -1}, {1, -2}, {-1, -2}, {-1, -1}, {-3, -1}}; // cross
  case 10: return {{1, 0}, {3, 1}, {2, 4}};                                                  // scalene, no axis-parallel edge
  case 11: return {{0, 0}, {5, 1}, {6, 5}, {2, 6}, {-1, 3}};                                 // convex pentagon
  case 12: return {{0, 0}, {7, 0}, {7, 7}, {1, 7}, {1, 2}, {5, 2}, {5, 5}, {3, 5}, {3, 4}, {4, 4}, {4, 3}, {2, 3}, {2, 6}, {6, 6}, {6, 1}, {0, 1}}; // spiral
  case 13: return {{0, 0}, {3, 1}, {6, 0}, {5, 3}, {6, 6}, {3, 5}, {0, 6}, {1, 3}};
  case 14: return {{-2, -2}, {0, -1}, {2, -2}, {0, 5}};
  default: return {{0, 0}, {8, 0}, {8, 1}, {2, 1}, {2, 2}, {8, 2}, {8, 3}, {0, 3}};
  }
}
// 1 inside, 0 on the boundary, -1 outside (crossing number, half-open rule; independent of the code under test)
inline int locate(const std::vector<Vector> &P, const Vector &p) {
  size_t n = P.size();
  bool in = false;
  for (size_t i = 0; i < n; i++) {
    const Vector &a = P[i], &b = P[(i + 1) % n];
    double lox = a.x < b.x ? a.x : b.x, hix = a.x < b.x ? b.x : a.x, loy = a.y < b.y ? a.y : b.y, hiy = a.y < b.y ? b.y : a.y;
    double o = orient(a, b, p);
    if (p.y >= loy && p.y <= hiy && p.x >= lox && p.x <= hix && o == 0) return 0;
    bool up = a.y <= p.y && p.y < b.y, dn = b.y <= p.y && p.y < a.y;
    if (up && o > 0) in = !in;
    if (dn && o < 0) in = !in;
  }
  return in ? 1 : -1;
}
inline double edge_dist2(const Vector &a, const Vector &b, const Vector &p) {       // squared distance from p to segment ab
  double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy, t = (p.x - a.x) * dx + (p.y - a.y) * dy;
  if (l2 == 0 || t <= 0) return (p.x - a.x) * (p.x - a.x) + (p.y - a.y) * (p.y - a.y);
  if (t >= l2) return (p.x - b.x) * (p.x - b.x) + (p.y - b.y) * (p.y - b.y);
  double c = orient(a, b, p);
  return c * c / l2;
}
