// refining points around corners
#include "drw.hpp"
static double len(const Vector &a, const Vector &b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)); }
static double segdist(const Vector &p, const Vector &a, const Vector &b) { return std::sqrt(edge_dist2(a, b, p)); }
static bool same(const Vector &a, const Vector &b) { return a.x == b.x && a.y == b.y; }
static bool known(const std::vector<Vector> &L, const Vector &p) { for (auto &q : L) if (same(p, q)) return true; return false; }
void nk_harness() {
  // integer figures whose smallest corner-edge distance is rational; placed by a symbolic similarity
  static const std::vector<std::vector<Vector>> F = {
      {{0, 0}, {4, 0}, {0, 3}},                                                     // distance 12/5
      {{0, 0}, {4, 0}, {4, 4}, {0, 4}},
      {{0, 0}, {6, 0}, {6, 2}, {2, 2}, {2, 6}, {0, 6}},                             // reflex corner: 90 inside, 270 outside
      {{0, 0}, {8, 0}, {8, 2}, {4, 4}, {0, 2}},                                     // flat top corner (no refinement)
      {{0, 0}, {3, -4}, {6, 0}, {3, 4}},                                            // rhombus
      {{-6, 0}, {-3, -2}, {3, -2}, {6, 0}, {3, 2}, {-3, 2}},                        // wide hexagon: only the ends are acute
  };
  // figures that share corners and edges
  static const std::vector<std::vector<std::vector<Vector>>> G = {
      {{{0, 0}, {8, 0}, {6, -9}, {-6, -9}, {-8, 1}}, {{6, 6}, {0, 0}, {-8, 1}, {-2, 9}}},      // only the first and third edge at the origin are near in direction
      {{{0, 0}, {6, 1}, {6, -1}}, {{0, 0}, {-6, 1}, {-6, -1}}},
      {{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{4, 0}, {8, 0}, {8, 4}, {4, 4}}},
      {{{0, 0}, {9, 0}, {9, 9}, {0, 9}}, {{0, 0}, {5, 1}, {3, 4}}},
      {{{0, 0}, {-8, 1}, {-6, -9}, {6, -9}, {8, 0}}, {{-8, 1}, {0, 0}, {1, 9}}, {{0, 0}, {8, 0}, {1, 9}}},
      {{{0, 0}, {4, 0}, {4, 3}, {0, 3}}, {{4, 0}, {8, 0}, {8, 3}, {4, 3}}, {{8, 0}, {12, 0}, {12, 3}, {8, 3}}, {{0, 3}, {4, 3}, {4, 7}, {0, 7}}, {{4, 3}, {8, 3}, {8, 7}, {4, 7}}, {{8, 3}, {12, 3}, {12, 7}, {8, 7}},
       {{20, 0}, {24, 0}, {24, 3}}, {{24, 0}, {28, 0}, {24, 3}}, {{20, 10}, {24, 10}, {20, 13}}, {{30, 10}, {34, 10}, {30, 13}}, {{40, 10}, {44, 10}, {40, 13}}, {{50, 10}, {54, 10}, {50, 13}}},
  };
  int k = nk_choose("figure", F.size() + G.size()), cw = nk_choose("clockwise", 2), two = nk_choose("second polygon", 2), shared = k >= (int)F.size();
  std::vector<std::vector<Vector>> all;
  if (shared) { all = G[k - F.size()]; if (two) std::reverse(all.begin(), all.end()); }
  else { all = {F[k]}; if (two) all.push_back({{20, 0}, {24, 0}, {24, 4}, {20, 4}}); }
  if (cw) std::reverse(all[0].begin(), all[0].end());
  // single points: on an edge, on two edges, inside
  static const std::vector<std::vector<Vector>> S[] = {{{{2, 0}}, {{1, 0}, {0, 1.5}}, {{1, 1}}}, {{{2, 0}}, {{4, 3}, {1, 4}}, {{1, 2}, {3, 4}}}};
  int single = k < 2 && !two ? nk_choose("single points", 4) : 0;
  std::vector<Vector> free;
  if (single) free = S[k][single - 1];
  double s = 1; Vector t(0, 0);
  int how = nk_choose("placement", shared ? 1 : 2);
  if (how) { s = nk_real("s", 0.25, 4); t = pt("t", -9, 9); } else t = pt("t", -2, 2);
  Draw d;
  for (auto &A : all) { std::vector<Vector> P; for (auto &u : A) P.push_back(Vector(t.x + s * u.x, t.y + s * u.y)); d.drawPolygon(P); }
  for (auto &u : free) d.drawPoint(Vector(t.x + s * u.x, t.y + s * u.y));
  Draw o = d;
  // oracle in the unit figure: all concrete
  double eps = 1e300;
  for (auto &A : all) for (auto &B : all) for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < B.size(); j++) {
    Vector e = B[j], f = B[(j + 1) % B.size()];
    if (same(A[i], e) || same(A[i], f)) continue;
    eps = std::min(eps, segdist(A[i], e, f));
  }
  // an edge does not count for the points that lie on it
  for (auto &u : free) for (auto &B : all) for (size_t j = 0; j < B.size(); j++) { double q = segdist(u, B[j], B[(j + 1) % B.size()]); if (q > 1e-6) eps = std::min(eps, q); }
  nk::eq(d.getCurrentEpsilon(), eps * s, free.empty() ? "smallest distance between corners and edges" : "smallest distance with single points", 10);
  std::vector<Vector> want, opt;             // opt: exactly at the distance limit, may go either way
  std::vector<Vector> done;
  for (auto &A : all) for (auto &c : A) {
    if (known(done, c)) continue;
    done.push_back(c);
    std::vector<Vector> ends;                  // other ends of the edges that meet here
    for (auto &B : all) for (size_t j = 0; j < B.size(); j++) { Vector e = B[j], f = B[(j + 1) % B.size()]; if (same(f, c)) std::swap(e, f); if (same(e, c) && !known(ends, f)) ends.push_back(f); }
    bool sharp = false;                        // less than 120 degrees between two of them
    for (auto &a : ends) for (auto &b : ends) if (!same(a, b) && ((a.x - c.x) * (b.x - c.x) + (a.y - c.y) * (b.y - c.y)) / (len(a, c) * len(b, c)) > -0.5) sharp = true;
    if (!sharp) continue;
    for (int j = 0; j < 18; j++) {
      double w = j * M_PI / 9, r = eps / 100;
      Vector q(c.x + r * cos(w), c.y + r * sin(w));
      double sd = 1e300;
      for (auto &a : ends) sd = std::min(sd, segdist(q, a, c) / r - 0.5);
      if (sd < -1e-9) continue;
      bool in = false;
      for (auto &B : all) in = in || locate(B, q) > 0;
      if (in) (sd < 1e-9 ? opt : want).push_back(q);
    }
  }
  d.addRefiningPoints();
  nk::check(d.segments.size() == o.segments.size() && d.polygons.size() == o.polygons.size() && d.regions.size() == o.regions.size(), "nothing but points is added");
  nk::check(d.points.size() >= o.points.size() + want.size() && d.points.size() <= o.points.size() + want.size() + opt.size(), "number of refining points");
  for (size_t i = 0; i < o.points.size(); i++) { nk::eq(d.points[i].x, o.points[i].x, "existing points stay"); nk::eq(d.points[i].y, o.points[i].y, "existing points stay"); }
  // as sets: the added points are the expected ones
  size_t n0 = o.points.size(), found = 0;
  std::vector<char> used(d.points.size(), 0);
  bool all_there = true;
  auto find = [&](const Vector &w) { Vector q(t.x + s * w.x, t.y + s * w.y); for (size_t i = n0; i < d.points.size(); i++) { double dx = d.points[i].x - q.x, dy = d.points[i].y - q.y; if (!used[i] && dx < 1e-9 && dx > -1e-9 && dy < 1e-9 && dy > -1e-9) { used[i] = 1; found++; return true; } } return false; };
  for (auto &w : want) all_there = find(w) && all_there;
  for (auto &w : opt) find(w);
  nk::check(all_there && found == d.points.size() - n0, "refining points lie on the ring, inside a polygon and away from the edges");
}
