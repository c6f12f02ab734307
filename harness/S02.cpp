// voltages are set at the nearest node of the right layer
#include "lay.hpp"
static std::vector<double> left(System<double> &s, const std::vector<double> &x) {
  std::vector<double> y(x.size(), 0);
  for (auto &e : s.A.elems) { int r = e.first >> 32, c = e.first & 0xffffffff; y[r] += e.second * x[c]; if (r != c) y[c] += e.second * x[r]; }
  for (size_t i = 0; i < y.size(); i++) y[i] -= s.b[i];
  return y;
}
static void pinned(System<double> &s, System<double> &before, int n, int want, double V, int want2, double V2) {
  std::vector<double> x(n);
  for (int i = 0; i < n; i++) x[i] = i * 7 % 5 - 2.5;
  x[want] = V; if (want2 >= 0) x[want2] = V2;
  auto y = left(s, x), z = left(before, x);
  for (int i = 0; i < n; i++) {
    double d = 0, o = 0;
    for (auto &e : s.A.elems) { int r = e.first >> 32, c = e.first & 0xffffffff; if (r == i && c == i) d = e.second; else if (r == i || c == i) o += e.second * e.second; }
    if (i == want || i == want2) { nk::check(d == 1 && o == 0, "the node's equation is its voltage"); nk::eq(s.b[i], i == want2 ? V2 : V, "the voltage is the given one"); }
    else nk::eq(y[i], z[i], "other nodes keep their equation", 100);
  }
}
void nk_harness() {
  int layers = 1 + nk_choose("layers", 3), layer = nk_choose("layer", layers), first = nk_choose("first mesh", 5), twice = nk_choose("again", 3);
  std::vector<Shape> S; std::vector<int> off; int n = 0;
  for (int l = 0; l < layers; l++) {
    Topo T = first == 4 ? grid(17 - l, 16) : topo((first + l * 2) % 4);
    Shape s; double dx = nk::real(nk::nm("dx", l), -3, 3), dy = 0.5 * l;
    for (auto &p : T.p) s.p.push_back(Vector(p.x + dx, p.y + dy));
    s.t = T.t; S.push_back(s); off.push_back(n); n += s.p.size();
  }
  MESHES = S; ATTRS.clear(); ASKED.clear();
  for (auto &s : S) ATTRS.push_back(std::vector<int>(s.t.size(), 0));
  double V = nk_real("V", 0.5, 9), V2 = nk_real("V2", -9, -0.5);
  Vector p = pt("p", -9, 9);
  int nodes = S[layer].p.size();
  static const int SOME[] = {0, 17, 100, 255, 256, 270};
  int best = first == 4 ? SOME[nk_choose("nearest of many", 6)] : nk_choose("nearest", nodes);
  if (first == 4) { p.x = S[layer].p[best].x + nk_real("rx", -0.25, 0.25); p.y = S[layer].p[best].y + nk_real("ry", -0.25, 0.25); }
  auto d2 = [&](const Vector &q) { return (q.x - p.x) * (q.x - p.x) + (q.y - p.y) * (q.y - p.y); };
  for (size_t i = 0; i < S[layer].p.size(); i++) if ((int)i != best) { double a = S[layer].p[i].x - S[layer].p[best].x, b = S[layer].p[i].y - S[layer].p[best].y; nk_assume(a * a + b * b - 2 * a * (p.x - S[layer].p[best].x) - 2 * b * (p.y - S[layer].p[best].y), ">=", 1e-6); }
  int other = twice == 1 ? best : (best + 1) % S[layer].p.size();
  Vector q = S[layer].p[other];
  int i1 = off[layer] + best, i2 = off[layer] + other;
  if (layers == 1 && nk_choose("single layer simulation", 2)) {
    CurrentDensitySimulation sim(2.0);
    sim.mesh.drawing.drawRectangle(Vector(-20, -20), Vector(20, 20)); sim.mesh.drawing.drawRegion(Vector(0, 0), {20.0});
    System<double> sys = sim.generateSystem(false, 1, 30);
    nk::check((int)sys.b.size() == n, "one equation per node");
    System<double> before(sys);
    sim.setVoltage(sys, p, V);
    if (twice) sim.setVoltage(sys, q, V2);
    pinned(sys, before, n, i1, V, twice ? i2 : -1, V2);
  } else {
    MultiLayerCurrentDensitySimulation sim(layers);
    for (auto &m : sim.meshes) { m.drawing.drawRectangle(Vector(-20, -20), Vector(20, 20)); m.drawing.drawRegion(Vector(0, 0), {20.0}); }
    System<double> sys = sim.generateSystem(false, 1, 30);
    nk::check((int)sys.b.size() == n, "one equation per node");
    System<double> before(sys);
    sim.setVoltage(sys, p, V, layer);
    if (twice) sim.setVoltage(sys, q, V2, layer);
    pinned(sys, before, n, i1, V, twice ? i2 : -1, V2);
  }
}
