// moving drawings and polygons
#include "drw.hpp"
void nk_harness() {
  int part = nk_choose("part", 4);
  Vector v = pt("v", -20, 20);
  if (part == 0) {
    Draw d;
    std::vector<Vector> P = poly(nk_choose("polygon", npoly()));
    double s = nk_real("s", 0.5, 3);
    for (auto &p : P) p = Vector(30 + s * p.x, 20 + s * p.y);
    Vector m = pt("m", -9, 9), q = pt("q", -9, 9);
    int figs = nk_choose("figures", 4), marks = nk_choose("marks", 5), pts = nk_choose("points", 3);
    if (figs & 1) d.drawPolygon(P);
    if (figs & 2) d.drawRectangle(Vector(-6, -7), Vector(-1, -2));
    for (int i = 0; i < pts; i++) d.drawPoint(i ? Vector(q.y, q.x + 3) : q);
    for (int i = 0; i < marks; i++) { Tag t; t.id = 4 + i % 3; d.drawRegion(i % 2 ? Vector(i, 2) : m + Vector(i, 0), t); }
    Draw o = d;
    int times = 1 + nk_choose("times", 2);
    for (int i = 0; i < times; i++) d.translate(v);
    double k = times;
    nk::check(d.points.size() == o.points.size() && d.segments.size() == o.segments.size() && d.polygons.size() == o.polygons.size() && d.regions.size() == o.regions.size() && d.region_map.size() == o.region_map.size(), "drawing: counts");
    for (size_t i = 0; i < o.points.size(); i++) { nk::eq(d.points[i].x, o.points[i].x + k * v.x, "drawing: points move"); nk::eq(d.points[i].y, o.points[i].y + k * v.y, "drawing: points move"); }
    for (size_t i = 0; i < o.regions.size(); i++) { nk::eq(d.regions[i].first.x, o.regions[i].first.x + k * v.x, "drawing: marks move"); nk::eq(d.regions[i].first.y, o.regions[i].first.y + k * v.y, "drawing: marks move"); nk::check(d.regions[i].second == o.regions[i].second, "drawing: materials stay"); }
    for (size_t i = 0; i < o.polygons.size(); i++) for (size_t j = 0; j < o.polygons[i].points.size(); j++) { nk::eq(d.polygons[i].points[j].x, o.polygons[i].points[j].x + k * v.x, "drawing: polygons move"); nk::eq(d.polygons[i].points[j].y, o.polygons[i].points[j].y + k * v.y, "drawing: polygons move"); }
    bool ok = true;
    for (size_t i = 0; i < o.segments.size(); i++) ok = ok && d.segments[i] == o.segments[i];
    nk::check(ok, "drawing: segments keep their ends");
  } else if (part == 1) {
    nikfemm::Polygon p(poly(nk_choose("polygon", npoly()))), o = p;
    if (nk_choose("copy", 2)) p = o.copy();
    nikfemm::Polygon &r = p.translate(v);
    nk::check(&r == &p && p.points.size() == o.points.size(), "polygon: returns itself");
    for (size_t i = 0; i < o.points.size(); i++) { nk::eq(p.points[i].x, o.points[i].x + v.x, "polygon: translation"); nk::eq(p.points[i].y, o.points[i].y + v.y, "polygon: translation"); }
  } else if (part == 2) {
    nikfemm::Polygon p(poly(nk_choose("polygon", npoly()))), o = p;
    double a = nk_real("a", -7, 7), c = cos(a), s = sin(a);
    nikfemm::Polygon &r = p.rotate(a, v);
    nk::check(&r == &p && p.points.size() == o.points.size(), "polygon: returns itself");
    for (size_t i = 0; i < o.points.size(); i++) {
      double x = o.points[i].x - v.x, y = o.points[i].y - v.y;
      nk::eq(p.points[i].x, v.x + c * x - s * y, "polygon: rotation", 10); nk::eq(p.points[i].y, v.y + s * x + c * y, "polygon: rotation", 10);
    }
  } else {
    // comparison of polygons: by corners in order
    std::vector<Vector> P = poly(nk_choose("polygon", npoly())), Q;
    for (auto &p : P) Q.push_back(p);
    int k = nk_choose("change", 4), i = nk_choose("corner", 3);
    double e = 0;
    if (k == 1) { e = nk_real("e", 0.01, 3); Q[i].x += e; }
    if (k == 2) { e = nk_real("e", 0.01, 3); Q[i].y -= e; }
    if (k == 3) Q.pop_back();
    nk::check((nikfemm::Polygon(P) == nikfemm::Polygon(Q)) == (k == 0), k ? "different polygons" : "equal polygons");
    nk::check((nikfemm::Polygon(P) != nikfemm::Polygon(Q)) == (k != 0), k ? "different polygons" : "equal polygons");
    nikfemm::Polygon a(P), b; b = a;
    nk::check(a == b && nikfemm::Polygon(a) == a && nikfemm::Polygon(P.data(), P.size()) == a, "copies are equal");
  }
}
