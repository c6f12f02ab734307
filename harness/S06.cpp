// forces and torques from the auxiliary function of the shell around a body
#include "msh.hpp"
#include "magnetostatic/simulation.hpp"
struct Case { std::vector<std::vector<Vector>> figs; std::vector<Vector> marks; std::vector<Vector> p; std::vector<Tri> t; std::vector<int> g; Vector q; };
static std::vector<Vector> box(double a, double b, double c, double d) { return {{a, b}, {c, b}, {c, d}, {a, d}}; }
static void ring(std::vector<Tri> &t, int o, int i) { for (int k = 0; k < 4; k++) { int n = (k + 1) % 4; t.push_back({o + k, o + n, i + k}); t.push_back({o + n, i + n, i + k}); } }
static void put(std::vector<Vector> &p, const std::vector<Vector> &f) { p.insert(p.end(), f.begin(), f.end()); }
static Case get(int k) {
  Case C;
  if (k == 0) {                       // a body in air
    C.figs = {box(0, 0, 6, 6), box(2, 2, 4, 4.5)}; C.marks = {{1, 0.5}, {3, 3}}; C.q = {3, 2.5};
    for (auto &f : C.figs) put(C.p, f);
    ring(C.t, 0, 4); C.t.push_back({4, 5, 6}); C.t.push_back({4, 6, 7});
    C.g = {0, 0, 0, 0, 1, 1, 1, 1};
  } else if (k == 1 || k == 2) {      // two bodies
    C.figs = {box(0, 0, 8, 6), box(1, 2, 3, 4), box(5, 2, 7, 4)}; C.marks = {{4, 0.5}, {2, 3}, {6, 3}};
    for (auto &f : C.figs) put(C.p, f);
    C.t = {{0, 5, 4}, {0, 1, 8}, {0, 8, 5}, {1, 9, 8}, {1, 2, 9}, {2, 10, 9}, {2, 11, 10}, {2, 3, 6}, {2, 6, 11}, {3, 7, 6}, {0, 4, 3}, {4, 7, 3}, {5, 8, 11}, {5, 11, 6}, {4, 5, 6}, {4, 6, 7}, {8, 9, 10}, {8, 10, 11}};
    C.g = k == 1 ? std::vector<int>{0, 0, 0, 0, 1, 1, 1, 1, 0, 0, 0, 0} : std::vector<int>{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1};
    C.q = k == 1 ? Vector(1.5, 3.5) : Vector(6, 2.5);
  } else if (k == 3 || k == 4) {      // three nested figures: the nearest one around the body bounds the shell; what is inside belongs to the body
    C.figs = {box(-3, -2, 9, 7), box(0, 0, 6, 6), box(2, 2, 4, 4.5)}; C.marks = {{-2, 0}, {1, 0.5}, {3, 3}};
    for (auto &f : C.figs) put(C.p, f);
    ring(C.t, 0, 4); ring(C.t, 4, 8); C.t.push_back({8, 9, 10}); C.t.push_back({8, 10, 11});
    C.g = k == 3 ? std::vector<int>{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1} : std::vector<int>{0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1};
    C.q = k == 3 ? Vector(3, 2.5) : Vector(1, 1.25);
  } else if (k == 5) {                // a reflex body
    C.figs = {box(-2, -2, 6, 6), {{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}}; C.marks = {{5, 5.5}, {1, 1}};
    for (auto &f : C.figs) put(C.p, f);
    C.t = {{0, 1, 5}, {0, 5, 4}, {1, 2, 6}, {1, 6, 5}, {6, 2, 7}, {7, 2, 8}, {2, 3, 8}, {3, 9, 8}, {3, 0, 4}, {3, 4, 9}, {4, 5, 7}, {5, 6, 7}, {4, 7, 9}, {9, 7, 8}};
    C.g = {0, 0, 0, 0, 1, 1, 1, 1, 1, 1}; C.q = {1, 3.5};
  } else {                            // a corner with many triangles
    std::vector<Vector> out = {{8, -8}}, body = {{0, 0}, {-1, -2}, {1, -2}};
    for (int i = 0; i < 20; i++) { double q = 1 - i / 10.0; q = std::floor(q * 64) / 64; out.push_back({8 * q + q / 4, 8 * (1 - q * q) + 1}); }
    out.push_back({-8, -8});
    std::reverse(body.begin() + 1, body.end());
    std::swap(body[1], body[2]);      // (0,0), (-1,-2), (1,-2): counterclockwise
    C.figs = {out, body}; C.marks = {{0, 3}, {0, -1}};
    put(C.p, out); put(C.p, body);
    int n = out.size(), v0 = n, v1 = n + 1, v2 = n + 2, L = n - 1;
    for (int i = 0; i + 1 < n; i++) C.t.push_back({v0, i, i + 1});
    C.t.push_back({v0, v2, 0}); C.t.push_back({v1, L, 0}); C.t.push_back({v1, 0, v2}); C.t.push_back({v0, L, v1}); C.t.push_back({v0, v1, v2});
    C.g.assign(n, 0); C.g.insert(C.g.end(), {1, 1, 1}); C.q = {0, -1.5};
  }
  return C;
}
static void split(Case &C, int t) {   // a free node inside triangle t
  Tri T = C.t[t];
  int n = C.p.size();
  C.p.push_back(Vector((2 * C.p[T[0]].x + C.p[T[1]].x + C.p[T[2]].x) / 4, (2 * C.p[T[0]].y + C.p[T[1]].y + C.p[T[2]].y) / 4));
  C.g.push_back(-1);
  C.t[t] = {T[0], T[1], n}; C.t.push_back({T[1], T[2], n}); C.t.push_back({T[2], T[0], n});
}
// any strength in one of several directions
static Vector field() {
  const double D[6][2] = {{1, 0}, {0, 1}, {0.75, 1}, {-1, 0.75}, {-0.75, -1}, {5, -12}};
  int k = nk_choose("direction", nk_thorough() ? 6 : 4);
  double t = nk_real("strength", 0.01, 3);
  return Vector(D[k][0] * t, D[k][1] * t);
}
struct Integral { double x, y, t; };
// integral over the triangles of (B^2/2 grad g - B (B.grad g)) and its moment about c
static Integral integral(const Case &C, const std::vector<Vector> &P, const std::vector<Vector> &B, const std::vector<double> &g, Vector c) {
  Integral I = {0, 0, 0};
  for (size_t k = 0; k < C.t.size(); k++) {
    const Tri &T = C.t[k];
    if (g[T[0]] == g[T[1]] && g[T[1]] == g[T[2]]) continue;
    double D = orient(C.p[T[0]], C.p[T[1]], C.p[T[2]]), gx = 0, gy = 0;
    for (int j = 0; j < 3; j++) { const Vector &u = C.p[T[(j + 1) % 3]], &v = C.p[T[(j + 2) % 3]]; gx += g[T[j]] * (u.y - v.y) / D; gy += g[T[j]] * (v.x - u.x) / D; }
    double area = (D < 0 ? -D : D) / 2, h = (B[k].x * B[k].x + B[k].y * B[k].y) / 2, s = B[k].x * gx + B[k].y * gy;
    double fx = (h * gx - B[k].x * s) * area, fy = (h * gy - B[k].y * s) * area;
    double rx = (P[T[0]].x + P[T[1]].x + P[T[2]].x) / 3 - c.x, ry = (P[T[0]].y + P[T[1]].y + P[T[2]].y) / 3 - c.y;
    I.x += fx; I.y += fy; I.t += rx * fy - ry * fx;
  }
  return I;
}
void nk_harness() {
  int part = nk_choose("part", 4), k = nk_choose("case", 7);
  Case C = get(k);
  int nt = C.t.size(), body = 0;
  std::vector<Vector> B;
  double unit = 4e-7 * 3.14159265358979323846;
  double dx = nk_real("dx", -9, 9), dy = nk_real("dy", -9, 9), cx = nk_real("cx", -9, 9), cy = nk_real("cy", -9, 9), depth = nk_real("depth", 0.01, 9);
  if (part == 1) {                    // free nodes, the same field everywhere
    int a = nk_choose("split", std::min(nt - 2, nk_thorough() ? 20 : 6));
    if (!nk_thorough()) a = a * (nt - 2) / std::min(nt - 2, 6);
    Tri T = C.t[a];
    split(C, a);
    if (nk_choose("second", 2)) for (int b = 0; b < nt; b++) { Tri U = C.t[b]; bool sep = true; for (int i : U) for (int j : T) sep = sep && i != j; if (sep) { split(C, b); break; } }
    Vector b = field();
    B.assign(C.t.size(), b);
  } else if (part == 3) {             // one free node, a field that varies
    split(C, nk_choose("split", std::min(nt - 2, 8)));
    for (size_t i = 0; i < C.t.size(); i++) B.push_back(Vector((int)(i * 7 % 5) - 2.25, (int)(i * 3 % 7) - 2.5));
  } else {
    if (part == 2 && nk_choose("free", 2)) split(C, nt / 2 - 1), nt = C.t.size();
    for (int i = 0; i < nt; i++) B.push_back(part == 2 ? Vector(0, 0) : Vector((int)(i * 7 % 5) - 2, (int)(i * 3 % 7) - 2.5));
    if (part == 0) B[nk_choose("triangle", std::min(nt, nk_thorough() ? 20 : 12))] = field();
  }
  MagnetostaticSimulation s;
  auto &m = s.mesh;
  Vector c(cx, cy), sh(dx, dy);
  s.depth = depth;
  m.center = c;
  for (auto &f : C.figs) { std::vector<Vector> F; for (auto &p : f) F.push_back(p + sh); m.drawing.polygons.push_back(nikfemm::Polygon(F)); }
  MagnetostaticProp air = {0, {0, 0}, 1, {}};
  for (auto &q : C.marks) m.drawing.drawRegion(q + sh, air);
  std::vector<Vector> P, A;
  for (auto &p : C.p) { P.push_back(p + sh); A.push_back(p + sh + c); }
  auto tri = C.t;
  int corners = nk_choose("corners", 2);
  for (size_t t = 0; t < tri.size(); t++) tri[t] = turn(tri[t], (corners * 4 + t) % 6);
  load(m, P, tri, std::vector<int>(tri.size(), 0));
  m.computeEpsilon();
  int about = nk_choose("about", 2);
  Vector at = part == 1 || part == 3 ? c + sh + (about ? Vector(1.25, -3) : Vector(3, 2.5)) : about ? Vector(nk_real("ox", -9, 9), nk_real("oy", -9, 9)) : Vector(0, 0);
  Vector q = C.q + sh + c;
  StressTensor r = s.computeStressIntegral(B, q, at);
  double scale = unit / depth;
  double Fx = r.Force.x * scale, Fy = r.Force.y * scale, T = r.Torque * scale;
  if (part == 0) {
    std::vector<double> g(C.g.begin(), C.g.end());
    Integral I = integral(C, A, B, g, at);
    nk::eq(Fx, I.x, "force of the field on the body", 10); nk::eq(Fy, I.y, "force of the field on the body", 10);
    nk::eq(T, I.t, "torque of the field on the body", 100);
  } else if (part == 1) {
    nk::eq(Fx, 0, "no force in a uniform field", 10); nk::eq(Fy, 0, "no force in a uniform field", 10);
    nk::eq(T, 0, "no torque in a uniform field", 100);
  } else if (part == 2) {
    nk::eq(Fx, 0, "no force without a field", 1); nk::eq(Fy, 0, "no force without a field", 1); nk::eq(T, 0, "no torque without a field", 1);
  } else {
    std::vector<double> g(C.g.begin(), C.g.end());
    g.back() = 0; Integral I = integral(C, A, B, g, at);
    g.back() = 1; Integral J = integral(C, A, B, g, at);
    nk::eq((Fx - I.x) * (J.y - I.y), (Fy - I.y) * (J.x - I.x), "force of one auxiliary function", 100);
  }
  if (k == 0 || k == 3) nk::check(throws([&] { s.computeForceIntegrals(B, C.marks[0] + sh + c); }), "a body without surroundings is rejected");
}
