// layers joined by resistors
#include "lay.hpp"
struct End { int layer, node; };
struct Wire { End a, b; };
// a simulation of one layer, and the points the mesher gets with and without refinement
static void single() {
  int k = nk_choose("topology", 4), given = nk_choose("thickness", 2), refine = nk_choose("refine", 2), many = nk_choose("layered", 2);
  double depth = nk_real("depth", 0.1, 5), sigma = nk_real("sigma", 0.1, 9), dx = nk_real("dx", -9, 9), dy = nk_real("dy", -9, 9);
  Topo T = topo(k); Shape S; S.t = T.t;
  for (auto &p : T.p) S.p.push_back(Vector(p.x + dx, p.y + dy));
  int L = many ? 2 : 1;
  MESHES.assign(L, S); ATTRS.assign(L, std::vector<int>(S.t.size(), 0)); ASKED.clear();
  auto draw = [&](CurrentDensityMesh &m) { m.drawing.drawRectangle(Vector(dx - 1, dy - 1), Vector(dx + 6, dy + 6)); m.drawing.drawRegion(Vector(dx + 1, dy + 1), {sigma}); };
  Dense K, one = stiffness(S, std::vector<double>(S.t.size(), sigma * (given ? depth : 1)));
  int n = S.p.size();
  for (int l = 0; l < L; l++) for (auto &e : one) K[{e.first.first + l * n, e.first.second + l * n}] += e.second;
  CurrentDensityMesh m; draw(m);
  auto plain = m.drawing;
  m.drawing.addRefiningPoints();
  auto fine = m.drawing;
  if (many) {
    MultiLayerCurrentDensitySimulation sim = given ? MultiLayerCurrentDensitySimulation(2, {depth, depth}) : MultiLayerCurrentDensitySimulation(2);
    for (auto &m : sim.meshes) draw(m);
    System<double> sys = sim.generateSystem(refine, 1, 30);
    compare(sys.A, K, "layers without resistors", [](double v) { return v; });
  } else {
    CurrentDensitySimulation a, b(depth), &sim = given ? b : a;
    draw(sim.mesh);
    System<double> sys = sim.generateSystem(refine, 1, 30);
    compare(sys.A, K, "one layer, one unit thick unless told otherwise", [](double v) { return v; });
  }
  nk::check((int)ASKED.size() == L, "every layer is meshed once");
  for (auto &A : ASKED) {
    if (!refine) { nk::check(A.size() == plain.points.size(), "no points are added unasked"); continue; }
    bool in = fine.points.size() > plain.points.size();
    for (auto &q : fine.points) in = in && has(A, q) >= 0;
    nk::check(in, "refining points are added on request");
  }
}
void nk_harness() {
  if (nk_choose("single layer", 2)) { single(); return; }
  // which terminals are joined
  static const std::vector<std::vector<Wire>> W = {
      {}, {{{0, 4}, {1, 2}}}, {{{1, 4}, {0, 0}}}, {{{0, 4}, {1, 1}}, {{0, 4}, {1, 1}}}, {{{0, 4}, {1, 1}}, {{1, 1}, {0, 4}}},
      {{{0, 0}, {0, 2}}}, {{{0, 4}, {0, 1}}}, {{{0, 1}, {0, 4}}, {{0, 4}, {1, 3}}}, {{{1, 2}, {1, 2}}, {{0, 4}, {1, 2}}}, {{{0, 4}, {1, 0}}, {{1, 0}, {2, 2}}},
      {{{2, 0}, {0, 4}}, {{1, 3}, {2, 0}}, {{0, 4}, {1, 3}}}, {{{0, 0}, {2, 1}}, {{0, 0}, {2, 2}}, {{0, 0}, {1, 1}}},
      {{{0, 4}, {1, 1}}, {{1, 1}, {2, 2}}, {{2, 1}, {3, 4}}, {{3, 0}, {4, 3}}, {{4, 2}, {5, 1}}, {{5, 0}, {0, 2}}, {{0, 4}, {3, 4}}, {{5, 2}, {2, 0}}, {{4, 3}, {1, 2}}, {{3, 2}, {3, 0}}}};
  int w = nk_choose("wiring", W.size()), two = w < 9 ? nk_choose("layers", 2) : 1, order = nk_choose("order", 2), aside = nk_choose("aside", 2);
  int L = w == 12 ? 6 : two ? 3 : 2, topos[6] = {2, 1, 0, 2, 1, 0};
  if (order) std::swap(topos[0], topos[2]);
  if (order && L == 2) topos[0] = 2, topos[1] = 1;
  std::vector<double> depth;
  for (int l = 0; l < L; l++) depth.push_back(nk::real(nk::nm("depth", l), 0.1, 5));
  int given = nk_choose("thickness", 2);
  MultiLayerCurrentDensitySimulation sim = given ? MultiLayerCurrentDensitySimulation(L, depth) : MultiLayerCurrentDensitySimulation(L);
  Dense K; std::vector<int> off; std::vector<Vector> at[6];
  int total = 0;
  Vector corner[6];
  double rx = aside ? nk_real("rx", -0.25, 0.25) : 0, ry = aside ? nk_real("ry", -0.25, 0.25) : 0;
  MESHES.clear(); ATTRS.clear(); ASKED.clear();
  for (int l = 0; l < L; l++) {
    Topo T = topo(topos[l]);
    Shape S;
    double dx = nk::real(nk::nm("dx", l), -9, 9), dy = nk::real(nk::nm("dy", l), -9, 9), sigma = nk::real(nk::nm("sigma", l), 0.1, 9);
    for (auto &p : T.p) S.p.push_back(Vector(p.x + dx, p.y + dy));
    S.t = T.t;
    corner[l] = Vector(dx - 1, dy - 1);
    sim.meshes[l].drawing.drawRectangle(Vector(dx - 1, dy - 1), Vector(dx + 6, dy + 6));
    sim.meshes[l].drawing.drawRegion(Vector(dx + 1, dy + 1), {sigma});
    Dense k = stiffness(S, std::vector<double>(S.t.size(), sigma * (given ? depth[l] : 1)));
    for (auto &e : k) K[{e.first.first + total, e.first.second + total}] += e.second;
    off.push_back(total); total += S.p.size(); at[l] = S.p;
    MESHES.push_back(S); ATTRS.push_back(std::vector<int>(S.t.size(), 0));
  }
  int n = 0;
  for (auto &v : W[w]) {
    End a = v.a, b = v.b;
    a.node %= at[a.layer].size(); b.node %= at[b.layer].size();
    double R = nk::real(nk::nm("R", n++), 0.1, 9);
    Vector s(rx, ry);
    sim.interconnections.push_back({at[a.layer][a.node] + s, at[b.layer][b.node] + s, (uint64_t)a.layer, (uint64_t)b.layer, R});
    int i = off[a.layer] + a.node, j = off[b.layer] + b.node;
    if (i == j) continue;
    K[{i, i}] += 1 / R; K[{j, j}] += 1 / R; K[{std::min(i, j), std::max(i, j)}] -= 1 / R;
  }
  System<double> sys = sim.generateSystem(false, 1, 30);
  nk::check(throws([&] { MultiLayerCurrentDensitySimulation bad(L + 1, depth); }), "thickness of every layer is required");
  nk::check((int)ASKED.size() == L, "every layer is meshed once");
  nk::check((int)sys.b.size() == total && (int)sys.A.m == total, "one equation per node of every layer");
  for (double v : sys.b) nk::eq(v, 0, "no injected current");
  compare(sys.A, K, w ? "conductance with resistors" : "layers without resistors", [](double v) { return v; });
  for (auto &c : sim.interconnections) {
    for (int e = 0; e < 2; e++) {
      int l = e ? c.layer2_id : c.layer1_id; Vector p = e ? c.p2 : c.p1;
      bool in = false;
      for (auto &q : ASKED[l]) in = in || (q.x == p.x && q.y == p.y);
      nk::check(in, "the mesher gets every terminal");
    }
  }
  for (int l = 0; l < L; l++) {
    bool in = true, once = true;
    for (size_t i = 0; i < ASKED[l].size(); i++) {
      Vector q = ASKED[l][i];
      in = in && q.x >= at[l][0].x - 9 && q.x <= at[l][0].x + 9;
      for (size_t j = 0; j < i && once; j++) { Vector r = ASKED[l][j]; double ax = q.x - r.x, ay = q.y - r.y; once = once && ax * ax + ay * ay > 1e-20; }
    }
    nk::check(in && once, "every point is given to the mesher once");
    if (aside) continue;
    // the mesh is refined by points all around every terminal, nearer to it than any edge
    std::vector<Vector> T; std::vector<double> clear; std::vector<int> quad;
    for (auto &c : sim.interconnections) for (int e = 0; e < 2; e++) if ((int)(e ? c.layer2_id : c.layer1_id) == l) {
      Vector p = e ? c.p2 : c.p1, u(p.x - corner[l].x, p.y - corner[l].y);
      T.push_back(p); clear.push_back(std::min(std::min(u.x, 7 - u.x), std::min(u.y, 7 - u.y))); quad.push_back(0);
    }
    bool rings = true;
    for (auto &q : ASKED[l]) {
      double ux = q.x - corner[l].x, uy = q.y - corner[l].y;
      bool known = (ux == 0 || ux == 7) && (uy == 0 || uy == 7);
      for (size_t k = 0; k < T.size(); k++) {
        double x = q.x - T[k].x, y = q.y - T[k].y, d = std::sqrt(x * x + y * y);
        if (d < 0.9 * clear[k]) { known = true; if (d > 0.01 * clear[k]) quad[k] |= x > 0 ? (y >= 0 ? 1 : 2) : (y > 0 ? 4 : 8); }
      }
      rings = rings && known;
    }
    for (int v : quad) rings = rings && v == 15;
    nk::check(rings, "points all around every terminal and nowhere else");
  }
}
