// circles through points and enclosing circles
#include "geo.hpp"
static double d2(const Vector &a, const Vector &b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
void nk_harness() {
  int part = nk_choose("part", 7);
  if (part == 0) {
    Vector a = pt("a", -9, 9), b = pt("b", -9, 9), c = pt("c", -9, 9);
    side("turn", orient(a, b, c), 1e-2);
    Circle k = Circle::getCircleFromPoints(a, b, c);
    nk::eq(k.radius * k.radius, d2(k.center, a), "circle through three points", 1e4); nk::eq(d2(k.center, b), d2(k.center, a), "circle through three points", 1e4); nk::eq(d2(k.center, c), d2(k.center, a), "circle through three points", 1e4);
  } else if (part == 1) {
    Vector a = pt("a", -9, 9), b = pt("b", -9, 9);
    Circle k = Circle::getCircleFromPoints(a, b);
    nk::eq(2 * k.center.x, a.x + b.x, "circle on a diameter"); nk::eq(2 * k.center.y, a.y + b.y, "circle on a diameter"); nk::eq(4 * k.radius * k.radius, d2(a, b), "circle on a diameter", 100);
    nk::eq(k.circumference(), 2 * M_PI * k.radius, "circumference", 10);
  } else if (part == 2) {
    Vector o = pt("o", -9, 9), p = pt("p", -9, 9);
    double r = nk_real("r", 0.25, 9), g = d2(o, p) - r * r;
    int in = side("where", g, 1e-2) < 0;
    nk::check(Circle(o, r).contains(p) == (bool)in, in ? "point inside the circle" : "point outside the circle");
    nk::check(Circle(o, r).containsPoints({o, p}) == (bool)in, "all points inside");
    nk::check(Circle(o, r).containsPoints({}), "no points");
  } else if (part == 3) {
    // the enclosing circle holds every point and is centred on their mean
    static const Vector F[] = {{3, 4}, {-6, 5}, {7, -3}, {0, -8}};
    int n = 1 + nk_choose("points", nk_thorough() ? 5 : 4), at = nk_choose("at", n);
    Vector o = nk_choose("shift", 2) ? Vector(40, -25) : Vector(0, 0);
    std::vector<Vector> P;
    int many = n == 1 ? nk_choose("many", 3) : 0;        // 0: as chosen, else the free point first or last among many
    if (many) { n = 40; at = many == 1 ? 0 : n - 1; }
    for (int i = 0; i < n; i++) P.push_back(o + (i == at ? n <= 3 ? pt("p", -9, 9) : Vector(nk_real("px", -9, 9), 2) : n == 40 ? Vector(i * 17 % 41 * 0.25 - 5, i * 29 % 43 * 0.25 - 5) : F[i - (i > at)]));
    Circle k = Circle::getEnclosingCircle(P);
    for (auto &p : P) nk::cmp(d2(k.center, p), "<=", k.radius * k.radius, "every point is enclosed", 100);
    nk::cmp(k.radius, "<=", 1e3, "the radius is finite");
  } else if (part == 4) {
    // smallest circle of two points and of triangles
    int kind = nk_choose("kind", 3);
    if (kind == 0) {
      Vector a = pt("a", -9, 9), b = pt("b", -9, 9);
      nk_assume(d2(a, b), ">=", 0.01);
      Circle k = Circle::getMinimumEnclosingCircle(std::vector<Vector>{a, b});
      nk::eq(4 * k.radius * k.radius, d2(a, b), "two points", 100); nk::eq(2 * k.center.x, a.x + b.x, "two points", 10);
    } else if (kind == 1) {                        // obtuse or right: circle on the longest side
      Vector a(-4, 0), b(4, 0), c(nk_real("cx", -3.5, 3.5), nk_real("cy", -3.9, 3.9));
      nk_assume(c.x * c.x + c.y * c.y, "<=", 15.5);
      Circle k = Circle::getMinimumEnclosingCircle(std::vector<Vector>{a, c, b});
      nk::eq(k.radius, 4, "obtuse triangle"); nk::eq(k.center.x, 0, "obtuse triangle"); nk::eq(k.center.y, 0, "obtuse triangle");
    } else {                                       // acute: circumcircle
      Vector a(-2, 0), b(2, 0), c(nk_real("cx", -1, 1), nk_real("cy", 3, 5));
      Circle k = Circle::getMinimumEnclosingCircle(std::vector<Vector>{a, c, b});
      nk::eq(d2(k.center, a), k.radius * k.radius, "acute triangle", 100); nk::eq(d2(k.center, b), k.radius * k.radius, "acute triangle", 100); nk::eq(d2(k.center, c), k.radius * k.radius, "acute triangle", 100);
    }
  } else if (part == 6) {
    // points of the boundary belong to the circle; equality
    static const double U[][3] = {{1, 0, 1}, {0, -1, 1}, {3, 4, 5}, {-5, 12, 13}, {-4, -3, 5}, {8, -15, 17}};
    Vector o = pt("o", -9, 9);
    auto u = U[nk_choose("direction", 6)];
    double q = nk_real("q", 0.25, 9), t = nk_real("t", 0.01, 0.5), r = q * u[2];
    Vector e(o.x + q * u[0], o.y + q * u[1]);
    Circle k(o, r);
    nk::check(k.contains(e) && k.containsPoints({o, e}), "points of the boundary belong to it");
    nk::check(k == Circle(o, r) && !(k != Circle(o, r)), "equal circles");
    int diff = nk_choose("difference", 3), neg = nk_choose("sign", 2);
    if (neg && diff < 2) t = -t;
    Circle other(Vector(o.x + (diff == 0 ? t : 0.0), o.y + (diff == 1 ? t : 0.0)), diff == 2 ? r + t : r);
    nk::check(!(k == other) && k != other, "different circles");
  } else {
    // smallest circle of a box with inner points
    double w = nk_real("w", 1, 6);
    Vector q = pt("q", -0.5, 0.5);
    std::vector<Vector> P = {{-4, -w}, {4, -w}, {4, w}, {-4, w}, q};
    if (nk_choose("many", 2)) for (int i = 0; i < 20; i++) P.insert(P.begin() + i % 4, Vector(i * 7 % 11 * 0.5 - 2.5, i * 5 % 7 * 0.25 - 0.75));
    if (nk_choose("order", 2)) std::reverse(P.begin(), P.end());
    Circle k = Circle::getMinimumEnclosingCircle(P);
    nk::eq(k.radius * k.radius, 16 + w * w, "box", 100); nk::eq(k.center.x, 0, "box", 10); nk::eq(k.center.y, 0, "box", 10);
  }
}
