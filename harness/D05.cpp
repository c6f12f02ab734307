// material of a polygon among nested ones
#include "drw.hpp"
static bool in_rect(const Vector *r, const Vector &p) { return p.x > r[0].x && p.x < r[1].x && p.y > r[0].y && p.y < r[1].y; }
void nk_harness() {
  // trees of nested figures; every region mark is a free point of its own cell
  struct Box { Vector r[2]; int parent; };
  static const std::vector<std::vector<Box>> T = {
      {{{{0, 0}, {8, 6}}, -1}},
      {{{{0, 0}, {8, 6}}, -1}, {{{2, 2}, {5, 4}}, 0}},
      {{{{0, 0}, {8, 6}}, -1}, {{{1, 1}, {3, 5}}, 0}, {{{4, 1}, {7, 5}}, 0}},
      {{{{0, 0}, {8, 6}}, -1}, {{{1, 1}, {7, 5}}, 0}, {{{2, 2}, {6, 4}}, 1}},
      {{{{0, 0}, {8, 6}}, -1}, {{{10, 0}, {16, 6}}, -1}, {{{1, 1}, {3, 5}}, 0}, {{{11, 1}, {13, 3}}, 1}},
      {{{{0, 0}, {12, 12}}, -1}, {{{1, 1}, {11, 11}}, 0}, {{{2, 2}, {5, 10}}, 1}, {{{6, 2}, {10, 10}}, 1}, {{{7, 3}, {9, 9}}, 3}},
      {{{{0, 0}, {40, 8}}, -1}, {{{1, 2}, {4, 6}}, 0}, {{{5, 2}, {8, 6}}, 0}, {{{9, 2}, {12, 6}}, 0}, {{{13, 2}, {16, 6}}, 0}, {{{17, 2}, {20, 6}}, 0}, {{{21, 2}, {24, 6}}, 0}, {{{25, 2}, {28, 6}}, 0}, {{{29, 2}, {32, 6}}, 0}, {{{33, 2}, {36, 6}}, 0}},
      {{{{0, 0}, {20, 20}}, -1}, {{{1, 1}, {19, 19}}, 0}, {{{2, 2}, {18, 18}}, 1}, {{{3, 3}, {17, 17}}, 2}, {{{4, 4}, {16, 16}}, 3}, {{{5, 5}, {15, 15}}, 4}, {{{6, 6}, {14, 14}}, 5}, {{{7, 7}, {13, 13}}, 6}, {{{8, 8}, {12, 12}}, 7}},
  };
  int part = nk_choose("part", 3);
  if (part == 0) {
    int k = nk_choose("tree", T.size()), n = T[k].size();
    int ord = nk_choose("order", 3), which = nk_choose("asked", n), rot = nk_choose("figures", 2);
    Draw d;
    std::vector<nikfemm::Polygon> P;
    std::vector<int> o(n);
    for (int i = 0; i < n; i++) o[i] = ord == 1 ? n - 1 - i : ord == 2 ? (i + 1) % n : i;
    Vector t = rot ? pt("t", -9, 9) : Vector(0, 0);
    for (int i = 0; i < n; i++) { auto &r = T[k][i].r; P.push_back(nikfemm::Polygon(std::vector<Vector>{r[0] + t, Vector(r[1].x, r[0].y) + t, r[1] + t, Vector(r[0].x, r[1].y) + t})); }
    for (int i : o) d.drawPolygon(P[i]);
    for (int i : o) {
      // the asked figure's mark is free in its whole cell, the others stand near a corner
      const Box &b = T[k][i];
      Vector m(b.r[0].x + 0.5, b.r[0].y + 0.25);
      if (i == which) {
        m = Vector(nk_real("mx", b.r[0].x + 0.01, b.r[1].x - 0.01), k == 6 ? nk_real("my", b.r[0].y + 0.01, b.r[0].y + 1.5) : nk_real("my", b.r[0].y + 0.01, b.r[1].y - 0.01));
        for (int j = 0; j < n; j++) if (T[k][j].parent == i) {
          const Vector *c = T[k][j].r;
          if (!(m.x <= c[0].x - 0.01 || m.x >= c[1].x + 0.01 || m.y <= c[0].y - 0.01 || m.y >= c[1].y + 0.01)) nk_drop();
        }
      }
      Tag g; g.id = 10 + i;
      d.drawRegion(m + t, g);
    }
    Tag r = d.getPolygonProp(P[which]);
    bool leaf = true; for (int j = 0; j < n; j++) leaf = leaf && T[k][j].parent != which;
    nk::check(r.id == 10 + which, leaf ? "material of an innermost polygon" : "material of a polygon holding others");
  } else if (part == 1) {
    // a nonconvex figure around another one
    Draw d;
    std::vector<Vector> P = poly(nk_choose("polygon", npoly())), Q;
    nikfemm::Polygon pp(P);
    for (auto &v : P) Q.push_back(Vector(40 + v.x / 2, v.y / 2));
    Vector m = pt("m", -8, 10);
    int w = locate(P, m);
    if (w == 0) nk_drop();
    Tag g; g.id = 3;
    d.drawPolygon(P); d.drawPolygon(Q);
    d.drawRegion(m, g);
    if (w > 0) nk::check(!throws([&] { nk::check(d.getPolygonProp(pp).id == 3, "mark inside the polygon"); }), "mark inside the polygon");
    else nk::check(throws([&] { d.getPolygonProp(pp); }), "polygon without a mark is rejected");
  } else {
    Draw d;
    Tag g; g.id = 3;
    d.drawRectangle(Vector(0, 0), Vector(4, 3)); d.drawRegion(Vector(1, 1), g);
    double e = nk_real("e", 0.01, 2);
    nk::check(throws([&] { d.getPolygonProp(nikfemm::Polygon(std::vector<Vector>{{0, 0}, {4 + e, 0}, {4, 3}, {0, 3}})); }), "foreign polygon is rejected");
  }
}
