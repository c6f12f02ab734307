// conductance matrix of a meshed conductor
#include "fem.hpp"
#include "current_density/mesh.hpp"
static void whole() {
  int k = nk_choose("mesh", 10), corners = k == 9 ? 3 : nk_choose("corners", 4), mats = k < 8 ? nk_choose("materials", 3) : k == 8 ? 299 : 2;
  Shape S = shape(k);
  CurrentDensityMesh m;
  std::vector<double> sigma; std::vector<int> id;
  for (int i = 0; i <= mats; i++) { sigma.push_back(k == 9 ? 1.0 + i : k >= 8 && i ? 1.0 + i : nk::real(nk::nm("sigma", i), 0.1 + 3 * i, 3 + 3 * i)); m.drawing.drawRegion({-1.0 - i, 0}, {sigma[i]}); id.push_back(m.drawing.regions.back().second); }
  double d = k == 9 ? 2 : nk_real("depth", 0.1, 9);
  m.depth = d;
  std::vector<int> attr; std::vector<double> el;
  for (size_t t = 0; t < S.t.size(); t++) { int a = k == 9 ? (t % 9973 == 5 ? 0 : 1 + t % 2) : (t * 2 + t / 3) % (mats + 1); attr.push_back(id[a]); el.push_back(sigma[a] * d); S.t[t] = turn(S.t[t], corners == 3 ? (t * 5 + 3) % 6 : corners * 2 + (corners == 1)); }
  load(m, S.p, S.t, attr);
  System<double> sys = m.getFemSystem();
  Dense K = stiffness(S, el);
  compare(sys.A, K, k < 8 ? "conductance between two nodes" : k == 8 ? "conductance between two of many nodes" : "conductance between nodes of high numbers", [](double v) { return v; });
  nk::check(sys.b.size() == S.p.size(), "one equation per node");
  for (size_t i = 0; i < sys.b.size(); i++) if (k != 9 || i % 5 == 0) nk::eq(sys.b[i], 0, "no injected current");
}
static void bare() {           // a node outside every triangle
  int where = nk_choose("where", 4);
  Topo T = topo(1);
  T.p.insert(T.p.begin() + where, pt("bare", -9, 9));
  for (auto &t : T.t) for (int &v : t) if (v >= where) v++;
  CurrentDensityMesh m;
  m.drawing.drawRegion({1, 1}, {nk_real("sigma", 0.1, 9)});
  load(m, T.p, T.t, {0, 0});
  bool threw = throws([&] { m.getFemSystem(); });
  nk::check(threw, "node without triangles is rejected");
}
void nk_harness() { if (nk_choose("part", 2)) bare(); else whole(); }
