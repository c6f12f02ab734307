// power density of every triangle
#include "lay.hpp"
void nk_harness() {
  int layers = 1 + nk_choose("layers", 3), first = nk_choose("first mesh", layers == 2 ? 8 : 7), mats = nk_choose("materials", 2);
  MultiLayerCurrentDensitySimulation sim(layers);
  std::vector<double> V, want;
  for (int l = 0; l < layers; l++) {
    int many = first >= 6;
    Topo T = first == 7 ? grid(262 - l, 262) : many ? grid(17 - l, 16) : topo((first + l * 2 + l / 2) % 6);
    double sx = nk::real(nk::nm("sx", l), 0.5, 3), dx = nk::real(nk::nm("dx", l), -9, 9);
    if (T.p.size() > 5) sx = 1.5;
    if (first == 7) dx = 3;
    for (auto &p : T.p) p = Vector(sx * p.x + dx, p.y - dx);
    std::vector<double> sigma; std::vector<int> attr;
    for (int i = 0; i <= mats; i++) { sigma.push_back(first == 7 ? 2.0 + i + l : nk::real(nk::nm("sigma", l, i), 0.1 + 3 * i + l * 0.1, 3 + 3 * i)); sim.meshes[l].drawing.drawRegion(Vector(i, 0), {sigma[i]}); }
    int base = V.size();
    for (size_t i = 0; i < T.p.size(); i++) V.push_back(many && i % (first == 7 ? 9973 : 97) != 3 ? i * 7 % 11 * 0.5 - 2 : nk::real(nk::nm("V", l, i), -9, 9));
    for (size_t t = 0; t < T.t.size(); t++) {
      int a = (t + l) % (mats + 1);
      attr.push_back(a);
      Tri q = T.t[t];
      Vector A = T.p[q[0]], B = T.p[q[1]], C = T.p[q[2]];
      double D = orient(A, B, C), u = V[base + q[1]] - V[base + q[0]], v = V[base + q[2]] - V[base + q[0]];
      double gx = (u * (C.y - A.y) - v * (B.y - A.y)) / D, gy = (v * (B.x - A.x) - u * (C.x - A.x)) / D;
      want.push_back(sigma[a] * (gx * gx + gy * gy));
      T.t[t] = turn(q, (t * 5 + l) % 6);
    }
    load(sim.meshes[l], T.p, T.t, attr);
    sim.meshes[l].depth = 1 + l;
  }
  std::vector<double> P = sim.computePowerDensity(V);
  nk::check(P.size() == want.size(), "one value per triangle of every layer");
  for (size_t i = 0; i < P.size() && i < want.size(); i++) nk::eq(P[i], want[i], first == 7 ? "conductivity times squared gradient, high numbers" : "conductivity times squared gradient", 1000);
}
