// drawing primitives
#include "drw.hpp"
static bool meet(const Vector &a, const Vector &b, const Vector &c, const Vector &d) {
  return sgn(orient(a, b, c), 1e-3) * sgn(orient(a, b, d), 1e-3) < 0 && sgn(orient(c, d, a), 1e-3) * sgn(orient(c, d, b), 1e-3) < 0;
}
void nk_harness() {
  int part = nk_choose("part", 8);
  Draw d;
  if (part == 0) {
    Vector a = pt("a", -9, 9);
    double w = nk_real("w", 0.01, 9), h = nk_real("h", 0.01, 9);
    int q = nk_choose("quadrant", 4), by = nk_choose("by", 2);
    if (q & 1) w = -w;
    if (q & 2) h = -h;
    Vector b(a.x + w, a.y + h);
    if (by) d.drawRectangle(a, b); else d.drawRectangle(a, w, h);
    std::vector<Vector> P = {a, {b.x, a.y}, b, {a.x, b.y}};
    nk::check(d.points.size() == 4 && d.segments.size() == 4 && d.polygons.size() == 1, "rectangle: counts");
    loop(d, P, "rectangle"); valid(d, "rectangle"); polyeq(d.polygons[0], P, "rectangle");
  } else if (part == 1) {
    int nn = nk_thorough() ? 30 : 14, n = 3 + nk_choose("n", nn + 1);
    if (n == 3 + nn) n = 300;
    Vector c = pt("c", -9, 9);
    double r = nk_real("r", 0.05, 9);
    if (nk_choose("by", 2)) d.drawCircle(c, r, n); else d.drawCircle(Circle(c, r), n);
    nk::check((int)d.points.size() == n && (int)d.segments.size() == n && d.polygons.size() == 1, "circle: counts");
    valid(d, "circle");
    std::vector<Vector> P;
    for (int i = 0; i < n; i++) { double t = 2 * M_PI * i / n; P.push_back(Vector(c.x + r * cos(t), c.y + r * sin(t))); }
    loop(d, P, "circle");
    nk::check((int)d.polygons[0].points.size() == n, "circle: recorded polygon size");
    for (int i = 0; i < n; i++) { nk::eq(d.polygons[0].points[i].x, P[(i + 1) % n].x, "circle: recorded polygon"); nk::eq(d.polygons[0].points[i].y, P[(i + 1) % n].y, "circle: recorded polygon"); }
  } else if (part == 2) {
    std::vector<Vector> P = poly(nk_choose("polygon", npoly()));
    Vector t = pt("t", -9, 9);
    double s = nk_real("s", 0.5, 4);
    for (auto &p : P) p = Vector(t.x + s * p.x, t.y + s * p.y);
    int by = nk_choose("by", 3);
    if (by == 0) d.drawPolygon(P); else if (by == 1) d.drawPolygon(nikfemm::Polygon(P)); else d.drawPolygon(P.data(), P.size());
    nk::check(d.points.size() == P.size() && d.segments.size() == P.size() && d.polygons.size() == 1, "polygon: counts");
    loop(d, P, "polygon"); valid(d, "polygon"); polyeq(d.polygons[0], P, "polygon");
  } else if (part == 3) {
    // shared corners and edges are reused
    Vector a = pt("a", -5, 5);
    double w = nk_real("w", 0.1, 5), h = nk_real("h", 0.1, 5), w2 = nk_real("w2", 0.1, 5);
    int how = nk_choose("how", 4), rev = nk_choose("reverse", 2);
    std::vector<Vector> P = {a, {a.x + w, a.y}, {a.x + w, a.y + h}, {a.x, a.y + h}}, Q;
    int np = 0, ns = 0;
    if (how == 0) { Q = P; np = 4; ns = 4; }
    if (how == 1) { Q = {P[1], {a.x + w + w2, a.y}, {a.x + w + w2, a.y + h}, P[2]}; np = 6; ns = 7; }
    if (how == 2) { Q = {P[2], {a.x + w + w2, a.y + h}, {a.x + w + w2, a.y + 2 * h}, {a.x + w, a.y + 2 * h}}; np = 7; ns = 8; }
    if (how == 3) { Q = {P[3], P[0], {a.x - w2, a.y + h / 2}}; np = 5; ns = 6; }
    if (rev) std::reverse(Q.begin(), Q.end());
    d.drawPolygon(P); d.drawPolygon(Q);
    nk::check((int)d.points.size() == np && (int)d.segments.size() == ns && d.polygons.size() == 2, "neighbours: shared corners and edges exist once");
    loop(d, P, "neighbours"); loop(d, Q, "neighbours"); valid(d, "neighbours");
    polyeq(d.polygons[0], P, "neighbours"); polyeq(d.polygons[1], Q, "neighbours");
  } else if (part == 4) {
    // a figure crossing an earlier one is rejected, any other one accepted
    int k = nk_choose("first", 6);
    std::vector<Vector> P = k < 5 ? poly(k) : std::vector<Vector>{{-30, 1}, {30, 1.5}, {30, 1.75}};
    Vector q = pt("q", -6, 8);
    static const Vector E[][2] = {{{7, -3}, {7.5, 5}}, {{-5, 0.25}, {-4, 0.5}}, {{1.75, 0.625}, {2.25, 0.75}}, {{0.375, -7}, {0.75, 9}}};
    int e = nk_choose("second", 4);
    std::vector<Vector> T = {E[e][0], E[e][1], q};
    int rot = nk_choose("start", 3);
    std::rotate(T.begin(), T.begin() + rot, T.end());
    sgn(orient(T[0], T[1], T[2]), 1e-3);
    bool cross = false;
    for (int i = 0; i < 3 && !cross; i++) for (size_t j = 0; j < P.size() && !cross; j++) cross = meet(T[i], T[(i + 1) % 3], P[j], P[(j + 1) % P.size()]);
    d.drawPolygon(P);
    bool rej = throws([&] { d.drawPolygon(T); });
    nk::check(rej == cross, cross ? "crossing figure is rejected" : "separate figure is accepted");
    if (!cross && !rej) { loop(d, P, "two figures"); loop(d, T, "two figures"); nk::check(d.segments.size() == P.size() + 3 && d.points.size() == P.size() + 3, "two figures: counts"); }
  } else if (part == 5) {
    // a corner placed on an edge, and a self-crossing loop
    if (nk_choose("kind", 2)) {
      double t = nk_real("t", 0.05, 0.95);
      std::vector<Vector> P = poly(nk_choose("polygon", 6));
      int i = nk_choose("edge", P.size());
      Vector m = along(P[i], P[(i + 1) % P.size()], t);
      d.drawPolygon(P);
      std::vector<Vector> T = {Vector(40, 41), m, Vector(-37, 45)};
      nk::check(throws([&] { d.drawPolygon(T); }), "corner in the middle of an edge is rejected");
    } else {
      double u = nk_real("u", 0.1, 3), v = nk_real("v", 0.1, 3);
      nk::check(throws([&] { d.drawPolygon({{0, 0}, {4 + u, 4 + v}, {4 + u, 0}, {0, 4 + v}}); }), "self-crossing loop is rejected");
    }
  } else if (part == 7) {
    // many figures that share corners and edges; one more is judged against all of them
    int nx = nk_thorough() ? 17 : 8, ny = nk_thorough() ? 16 : 7;
    Vector a = pt("a", -9, 9);
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) d.drawRectangle(Vector(a.x + i, a.y + j), Vector(a.x + i + 1, a.y + j + 1));
    int np = (nx + 1) * (ny + 1), ns = nx * (ny + 1) + ny * (nx + 1);
    nk::check((int)d.points.size() == np && (int)d.segments.size() == ns && (int)d.polygons.size() == nx * ny, "many figures: counts");
    bool ok = true;
    for (int i = 0; i <= nx && ok; i++) for (int j = 0; j <= ny && ok; j++) {
      int p = index_of(d, Vector(a.x + i, a.y + j)), q = i < nx ? index_of(d, Vector(a.x + i + 1, a.y + j)) : p, r = j < ny ? index_of(d, Vector(a.x + i, a.y + j + 1)) : p;
      ok = p >= 0 && (i == nx || has_segment(d, p, q)) && (j == ny || has_segment(d, p, r));
    }
    nk::check(ok, "many figures: every edge is a segment");
    valid(d, "many figures");
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) polyeq(d.polygons[j * nx + i], {{a.x + i, a.y + j}, {a.x + i + 1, a.y + j}, {a.x + i + 1, a.y + j + 1}, {a.x + i, a.y + j + 1}}, "many figures");
    int c = nk_choose("cell", 3), cross = nk_choose("crossing", 2);
    Vector o = c == 0 ? a : c == 1 ? Vector(a.x + nx / 2, a.y + ny / 2) : Vector(a.x + nx - 1, a.y + ny - 1);
    double u = nk_real("u", 0.125, 0.75), v = cross ? 1.25 : 0.875;
    bool rej = throws([&] { d.drawPolygon({Vector(o.x + u, o.y + 0.5), Vector(o.x + u + 0.0625, o.y + 0.5), Vector(o.x + u, o.y + v)}); });
    nk::check(rej == (bool)cross, cross ? "figure crossing one of many is rejected" : "figure between many is accepted");
  } else {
    int kind = nk_choose("kind", 2);
    if (kind == 0) {
      Vector a = pt("a", -9, 9), b = pt("b", -9, 9);
      d.drawPoint(a);
      int same = nk_choose("same", 3);
      if (same == 1) b = a;
      else if (same == 2) { side("dx", b.x - a.x, 0.01); }
      else side("dy", b.y - a.y, 0.01);
      d.drawPoint(b);
      nk::check(d.points.size() == (same == 1 ? 1 : 2) && d.segments.empty() && d.polygons.empty() && d.regions.empty(), "single points: counts");
      nk::eq(d.points[0].x, a.x, "single points"); nk::eq(d.points.back().y, b.y, "single points");
      if (same == 1) nk::check(d.points.size() == 1, "a point drawn twice exists once");
    }
    else { nk::check(throws([&] { d.drawPolygon(std::vector<Vector>{}); }), "empty polygon is rejected"); }
  }
}
