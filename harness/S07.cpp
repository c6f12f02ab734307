// the magnetostatic system from the drawing: boundary circle, surrounding air, exterior, equations, far field
#include "fem.hpp"
#include "magnetostatic/simulation.hpp"
struct Call { std::vector<Vector> p; std::vector<std::pair<int, int>> s; std::vector<std::array<double, 3>> r; std::string sw; };
static std::vector<Call> CALLS; static size_t DRAWN;
static double ccw(const Vector &a, const Vector &b, const Vector &c) { return orient(a, b, c); }
static std::vector<size_t> rimof(const std::vector<Vector> &p) {           // the outermost points
  double q = 0; std::vector<size_t> r;
  for (auto &v : p) { double w = v.x * v.x + v.y * v.y; if (w > q) q = w; }
  for (size_t i = 0; i < p.size(); i++) if (p[i].x * p[i].x + p[i].y * p[i].y > q * (1 - 1e-9)) r.push_back(i);
  return r;
}
// a fan for the exterior disc; for the mesh itself a fan round a node inside, over the rim (the corners of the drawing stay unused but one)
void triangulate(char *sw, triangulateio *in, triangulateio *out, triangulateio *) {
  Call c; c.sw = sw;
  for (int i = 0; i < in->numberofpoints; i++) c.p.push_back(Vector(in->pointlist[2 * i], in->pointlist[2 * i + 1]));
  for (int i = 0; i < in->numberofsegments; i++) c.s.push_back({in->segmentlist[2 * i], in->segmentlist[2 * i + 1]});
  for (int i = 0; i < in->numberofregions; i++) c.r.push_back({in->regionlist[4 * i], in->regionlist[4 * i + 1], in->regionlist[4 * i + 2]});
  std::vector<Vector> P;
  for (size_t i : rimof(c.p)) P.push_back(c.p[i]);
  std::vector<int> M(P.size(), 1);
  int n = P.size();
  std::vector<Tri> T; std::vector<double> A;
  P.push_back(!CALLS.empty() ? P[0] * 0.25 + P[n / 4] * 0.0625 : DRAWN ? c.p[0] : Vector(0.25, 0.125)); M.push_back(0);
  for (int i = 0; i < n; i++) { T.push_back({n, i, (i + 1) % n}); A.push_back(CALLS.empty() ? i % std::max<int>(1, c.r.size()) : 0); }
  out->numberofpoints = P.size(); out->pointlist = (double *)malloc(16 * P.size()); out->pointmarkerlist = (int *)malloc(4 * P.size());
  for (size_t i = 0; i < P.size(); i++) { out->pointlist[2 * i] = P[i].x; out->pointlist[2 * i + 1] = P[i].y; out->pointmarkerlist[i] = M[i]; }
  out->numberoftriangles = T.size(); out->numberofcorners = 3; out->numberoftriangleattributes = 1; out->trianglelist = (int *)malloc(12 * T.size()); out->triangleattributelist = (double *)malloc(8 * T.size());
  for (size_t i = 0; i < T.size(); i++) { for (int j = 0; j < 3; j++) out->trianglelist[3 * i + j] = T[i][j]; out->triangleattributelist[i] = CALLS.empty() ? c.r[(int)A[i]][2] : c.r[0][2]; }
  CALLS.push_back(c);
}
void nk_harness() {
  typedef std::vector<Vector> Fig;
  static const std::vector<std::vector<Fig>> S = {
      {{{0, 0}, {6, 0}, {6, 8}, {0, 8}}},
      {{{0, 0}, {3, 0}, {3, 4}, {0, 4}}, {{1, 1}, {2, 1}, {2, 3}, {1, 3}}},
      {{{-2, -1}, {1, -2}, {3, 1}, {-1, 3}}},
      {{{0, 0}, {0.03, 0}, {0.03, 0.04}, {0, 0.04}}},
      {{{0, 0}, {1, 0}, {0, 1}}, {{5, 5}, {9, 6}, {6, 8}}}};
  CALLS.clear(); DRAWN = 0;
  int k = nk_choose("drawing", S.size() + 1), ar = nk_choose("area", 6), refine = k < 3 ? nk_choose("refine", 2) : 0, angle = refine ? 25 : nk_choose("angle", 2) ? 20 : 33;
  const double areas[6] = {1, 0.25, 20, 4e4, 1e300, 0.0625};
  double area = areas[ar];
  if ((k < 3 || k > 3) && ar == 5 && !nk_thorough()) area = 0.5;
  double dx = nk_real("dx", -9, 9), dy = nk_real("dy", -9, 9), J = nk_real("J", 1, 9), mu = nk_real("mu", 0.5, 2);
  Vector sh(dx, dy);
  MagnetostaticSimulation sim;
  Draw count;
  std::vector<Vector> pts;
  if (k < (int)S.size()) for (auto &f : S[k]) {
    Fig F; for (auto &p : f) { F.push_back(p + sh); pts.push_back(p); }
    sim.mesh.drawing.drawPolygon(F);
    sim.mesh.drawing.drawRegion(F[0] + (f[2] - f[0]) * 0.125 + (f[1] - f[0]) * 0.0625, {J * (int)pts.size(), {0, 0}, mu, {}});
  }
  auto before = sim.mesh.drawing.regions;
  DRAWN = pts.size();
  if (pts.empty()) { sim.mesh.drawing.drawRegion(Vector(0.1, 0), {J, {0, 0}, mu, {}}); }
  System<NonLinearExpression> sys = sim.generateSystem(refine, area, angle);
  auto &m = sim.mesh;
  // the circle
  Vector c(0, 0);
  for (auto &p : pts) c += p;
  if (!pts.empty()) c = c / (double)pts.size();
  double r = 0;
  for (auto &p : pts) { double q = Vector::distance(p, c); if (q > r) r = q; }
  if (pts.empty()) r = 1;
  if (!pts.empty()) { nk::eq(m.center.x, c.x + dx, "center of the drawing", 10); nk::eq(m.center.y, c.y + dy, "center of the drawing", 10); }
  nk::check(m.radius > 1.25 * r && m.radius < 3 * r, "boundary radius encloses the drawing");
  nk::check(CALLS.size() == 2, "drawing and exterior are meshed once each");
  if (CALLS.size() != 2) return;
  auto &a = CALLS[0];
  char want[64]; snprintf(want, sizeof want, "q%d", angle);
  char lim[400]; snprintf(lim, sizeof lim, "a%.17f", area);
  nk::check(a.sw.find(want) != std::string::npos && a.sw.find(lim) != std::string::npos, "mesher options");
  bool ok = a.p.size() >= pts.size() + 4;
  nk::check(ok, "boundary polygon has enough corners");
  if (!ok) return;
  for (size_t i = 0; i < pts.size(); i++) { nk::eq(a.p[i].x, pts[i].x - c.x, "drawing is moved to the origin", 10); nk::eq(a.p[i].y, pts[i].y - c.y, "drawing is moved to the origin", 10); }
  std::vector<size_t> ring = rimof(a.p);
  size_t n = ring.size();
  for (size_t i : ring) nk::eq(a.p[i].x * a.p[i].x + a.p[i].y * a.p[i].y, m.radius * m.radius, "boundary corners lie on the circle", 10 * (1 + r * r));
  if (!refine) nk::check(a.p.size() == pts.size() + n, "the mesher gets the drawing and the boundary"); else nk::check(a.p.size() > pts.size() + n, "refining points are added");
  // every side of the boundary has the drawing and the surrounding mark on its left, corner after corner once around
  std::vector<std::pair<int, int>> rim;
  for (auto &s : a.s) if (std::count(ring.begin(), ring.end(), (size_t)s.first) && std::count(ring.begin(), ring.end(), (size_t)s.second)) rim.push_back(s);
  nk::check(rim.size() == n, "boundary is one closed polygon");
  bool enclosed = true, marked = true;
  Vector air(0, 0); int airid = -1;
  for (auto &q : a.r) { Vector w(q[0], q[1]); if (w.x * w.x + w.y * w.y > 1.1 * r * r) { air = w; airid = (int)q[2]; } }
  nk::check(airid >= 0, "the surroundings are marked outside of the drawing");
  for (auto &s : rim) {
    Vector u = a.p[s.first], v = a.p[s.second];
    if (ccw(u, v, Vector(0, 0)) < 0) std::swap(u, v);
    for (size_t i = 0; i < pts.size(); i++) enclosed = enclosed && ccw(u, v, a.p[i]) > 0;
    marked = marked && ccw(u, v, air) > 0;
  }
  nk::check(enclosed, "boundary polygon encloses the drawing"); nk::check(marked, "the mark of the surroundings is inside the boundary");
  if (airid >= 0) { auto &p = m.drawing.region_map[airid]; nk::check(p.J == 0 && p.M.x == 0 && p.M.y == 0 && p.isLinear(), "the surroundings are air"); nk::eq(p.mu, magnetostatic_materials::vacuum, "the surroundings are air", 1e-6); }
  for (size_t i = 0; i < before.size() && !pts.empty(); i++) { nk::eq(m.drawing.regions[i].first.x + m.center.x, before[i].first.x, "marks move with the drawing", 10); nk::eq(m.drawing.regions[i].first.y + m.center.y, before[i].first.y, "marks move with the drawing", 10); }
  auto &b = CALLS[1];
  nk::check(b.p.size() == n, "the exterior has the rim's corners");
  if (b.p.size() == n) for (size_t i = 0; i < n; i++) { nk::eq(b.p[i].x, a.p[ring[i]].x, "the exterior has the rim's corners", 10); nk::eq(b.p[i].y, a.p[ring[i]].y, "the exterior has the rim's corners", 10); }
  // equations: at the free nodes those of the triangles, three nodes pinned at zero
  int N = m.data.numberofpoints, NT = m.data.numberoftriangles;
  nk::check(N == (int)n + 2 && NT == 2 * (int)n && (int)sys.b.size() == N, "one equation per node");
  std::vector<double> mus(NT), bb(N, 0.0);
  Shape F;
  for (int i = 0; i < N; i++) F.p.push_back(m.data.pointlist[i]);
  std::vector<double> el;
  for (int t = 0; t < NT; t++) {
    auto &p = m.drawing.region_map[(int)m.data.triangleattributelist[t]];
    mus[t] = p.mu; el.push_back(1 / p.mu);
    F.t.push_back({(int)m.data.trianglelist[t][0], (int)m.data.trianglelist[t][1], (int)m.data.trianglelist[t][2]});
    double D = orient(F.p[F.t[t][0]], F.p[F.t[t][1]], F.p[F.t[t][2]]);
    for (int v : F.t[t]) bb[v] += (D < 0 ? -D : D) * p.J / 6;
  }
  std::vector<int> pin;
  for (int i = 0; i < N; i++) {
    double d = 0; bool off = false;
    for (auto &e : sys.A.elems) { int u = e.first >> 32, v = e.first & 0xffffffff; if (u == i && v == i) d = e.second.evaluate(mus); else if ((u == i || v == i)) { double w = e.second.evaluate(mus); if (w != 0) off = true; } }
    if (!off && d == 1) pin.push_back(i);
  }
  nk::check(pin.size() == 3, "three nodes are pinned");
  for (int i : pin) nk::eq(sys.b[i].evaluate(mus), 0, "pinned at zero", 1);
  auto fixed = [&](int i) { return std::find(pin.begin(), pin.end(), i) != pin.end(); };
  Dense K = stiffness(F, el);
  for (auto &e : sys.A.elems) { int u = e.first >> 32, v = e.first & 0xffffffff; if (!fixed(u) && !fixed(v)) nk::eq(e.second.evaluate(mus) * 1e-6, K[{std::min(u, v), std::max(u, v)}] * 1e-6, "equations of the free nodes", 100); }
  for (int i = 0; i < N; i++) if (!fixed(i)) nk::eq(sys.b[i].evaluate(mus), bb[i], "currents of the free nodes", 100 * (1 + r * r));
}
