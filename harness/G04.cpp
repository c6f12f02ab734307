// point in polygon
#include "geo.hpp"
void nk_harness() {
  int part = nk_choose("part", 3);
  if (part == 0) {
    // every point of the plane against the catalogue, any start vertex and both orientations
    int k = nk_choose("polygon", npoly());
    std::vector<Vector> P = poly(k);
    int n = P.size(), st = nk_choose("start", nk_thorough() ? n : 3), rev = nk_choose("reversed", 2);
    std::vector<Vector> Q;
    for (int i = 0; i < n; i++) Q.push_back(P[((rev ? n - 1 - i : i) + (nk_thorough() ? st : st * 2 + st / 2)) % n]);
    Vector p = pt("p", -10, 12);
    double e = st == 0 && !rev && (nk_thorough() || k < 4) ? unit() : 1;
    bool in = nikfemm::Polygon(e * Q).contains(sized(e, p));
    int w = locate(P, p);
    nk::check(in == (w >= 0), w > 0 ? "inside" : w < 0 ? "outside" : "on the boundary");
  } else if (part == 1) {
    // triangle with free corners: interior and exterior by barycentric coordinates
    Vector a(0, 0), b = nk_choose("flat", 2) ? Vector(nk_real("bx", 1, 8), 0) : Vector(nk_real("bx", -8, 8), 2), c = pt("c", -8, 8);
    side("turn", orient(a, b, c), 1e-2);
    double u = nk_real("u", -2, 2), v = nk_real("v", -2, 2);
    int zone = nk_choose("zone", 5);
    if (zone == 0) { nk_assume(u, ">=", 0.01); nk_assume(v, ">=", 0.01); nk_assume(u + v, "<=", 0.99); }
    if (zone == 1) nk_assume(u, "<=", -0.01);
    if (zone == 2) { nk_assume(u, ">=", 0); nk_assume(v, "<=", -0.01); }
    if (zone == 3) { nk_assume(u, ">=", 0); nk_assume(v, ">=", 0); nk_assume(u + v, ">=", 1.01); }
    Vector p(u * b.x + v * c.x, u * b.y + v * c.y);
    if (zone == 4) { nk_assume(u, ">=", 0); nk_assume(u, "<=", 1); p = along(b, c, u); }
    double e = nk_thorough() || zone == 0 || zone == 4 ? unit() : 1;
    std::vector<Vector> T = e * std::vector<Vector>{a, b, c};
    std::rotate(T.begin(), T.begin() + nk_choose("start", 3), T.end());
    bool in = nikfemm::Polygon(T).contains(sized(e, p));
    nk::check(in == (zone == 0 || zone == 4), zone == 0 ? "inside the triangle" : zone == 4 ? "on an edge of the triangle" : "outside the triangle");
  } else {
    // corners, edges and translated copies
    int k = nk_choose("polygon", npoly());
    std::vector<Vector> P = poly(k);
    int n = P.size(), i = nk_choose("edge", n);
    double t = nk_real("t", 0, 1);
    double e = unit();
    P = e * P;
    nikfemm::Polygon Q(P);
    nk::check(Q.contains(along(P[i], P[(i + 1) % n], t)), "points of every edge");
    nk::check(Q.contains(P[i]), "corners");
    nk::check(!Q.contains(Vector(P[i].x + 100 * e, P[i].y)), "level with a corner, outside");
    nk::check(!Q.contains(Vector(P[i].x - 100 * e, P[i].y)), "level with a corner, outside");
    nk::check(!Q.contains(Vector(P[i].x, P[i].y - 100 * e)), "below a corner, outside");
  }
}
