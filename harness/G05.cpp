// point in polygon with a boundary tolerance
#include "geo.hpp"
void nk_harness() {
  int part = nk_choose("part", 2), bc = nk_choose("boundary counts", 2);
  int k = nk_choose("polygon", part == 0 ? (nk_thorough() ? 12 : 9) : npoly());
  std::vector<Vector> P = poly(k);
  int n = P.size();
  if (part == 0) {
    Vector p = pt("p", -10, 12);
    double eps = nk_choose("eps", 2) ? 0.25 : 0;
    if (nk_thorough() && eps > 0) eps = nk_real("tol", 0.125, 2);
    int w = locate(P, p);
    double e = nk_thorough() || k < 3 ? unit() : 1;
    int nb = 0;
    for (int i = 0; i < n; i++) { if (edge_dist2(P[i], P[(i + 1) % n], p) <= eps * eps) { nb = 1; break; } }
    bool r = nikfemm::Polygon(e * P).contains(sized(e, p), bc, e * eps);
    bool want = bc ? (w >= 0 || nb) : (w >= 0 && !nb);
    nk::check(r == want, std::string(bc ? "boundary counts: " : "boundary does not count: ") + (nb ? "near the boundary" : w > 0 ? "inside" : "outside"));
  } else {
    int i = nk_choose("edge", n);
    double t = nk_real("t", 0, 1);
    Vector q = along(P[i], P[(i + 1) % n], t);
    double e = unit();
    nk::check(nikfemm::Polygon(e * P).contains(sized(e, q), bc, e * 0.0625) == (bool)bc, bc ? "edge point when the boundary counts" : "edge point when it does not");
  }
}
