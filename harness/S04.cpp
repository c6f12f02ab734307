// permeability from a B-H curve
#include "geo.hpp"
#include <stdexcept>
#include "magnetostatic/properties.hpp"
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
// the materials of the catalogue
static void catalogue() {
  namespace mat = magnetostatic_materials;
  const double vac = 4e-7 * 3.14159265358979323846;
  nk::check(std::fabs(mat::vacuum - vac) < 1e-18 && mat::air == mat::vacuum, "permeability of vacuum and air");
  double b = nk_real("B", 0, 20), c = nk_real("C", 0, 20);
  for (double mu : {mat::vacuum, mat::air, mat::copper, mat::iron_linear, mat::neodymium}) {
    MagnetostaticProp p = {0, {0, 0}, mu, {}};
    nk::check(p.isLinear(), "linear exactly without a curve");
    nk_cmp(p.getMu(b), ">=", 0.99 * vac, 1e-6, "no material of the catalogue is below vacuum");
  }
  MagnetostaticProp iron = {0, {0, 0}, 1, mat::iron};
  nk::check(!iron.isLinear(), "linear exactly without a curve");
  double x = iron.getMu(b);
  nk_cmp(x, ">=", 0.99 * vac, 1e-6, "no material of the catalogue is below vacuum");
  nk_assume(c, ">", b);
  nk_cmp(iron.getMu(c), "<=", x, 1e-6, "iron saturates");
}
void nk_harness() {
  if (nk_choose("catalogue", 2)) { catalogue(); return; }
  int nn = nk_thorough() ? 9 : 6, n = nk_choose("points", nn + 1), large = n == nn, order = nk_choose("order", 2);
  if (large) n = 40;
  std::vector<double> B(n), H(n);
  for (int i = 0; i < n; i++) {
    B[i] = (i ? B[i - 1] : 0) + (large && i != 20 ? 0.25 + i % 3 * 0.125 : nk::real(nk::nm("dB", i), 0.01, 2));
    H[i] = (i ? H[i - 1] : 0) + (large && i != 20 ? 1.0 + i % 5 * 2 : nk::real(nk::nm("dH", i), 0.01, 50));
  }
  MagnetostaticProp p = {0, {0, 0}, nk_real("mu", 1e-3, 5), {}};
  for (int i = 0; i < n; i++) { int q = order ? n - 1 - i : i; p.bh_curve.insert({B[q], H[q]}); }
  nk::check(p.isLinear() == (n == 0), "linear exactly without a curve");
  double b = nk_real("B", 0, large ? 40 : 20);
  if (n == 0) { nk::eq(p.getMu(b), p.mu, "constant permeability"); return; }
  if (n == 1) { nk::check(throws([&] { p.getMu(b); }), "curve of one point is rejected"); return; }
  int s = nk_choose("segment", n + 1), tie = nk_choose("tie", 2);      // position of b: 0 before, n behind
  if (tie) { if (s == n) nk_drop(); b = B[s]; }
  else { if (s > 0) nk_assume(b, ">", B[s - 1]); if (s < n) nk_assume(b, "<", B[s]); }
  double mu = p.getMu(b);
  auto slope = [&](int i) { return (B[i + 1] - B[i]) / (H[i + 1] - H[i]); };
  if (!tie) {
    int q = s == 0 ? 0 : s == n ? n - 2 : s - 1;
    nk::eq(mu, slope(q), s == 0 ? "below the curve: slope of its first segment" : s == n ? "beyond the curve: slope of its last segment" : "slope of the segment that holds B", 10);
  } else {      // a corner of the curve: either neighbour
    double l = mu - slope(s ? s - 1 : 0), r = mu - slope(s < n - 1 ? s : n - 2);
    nk::eq(l * r, 0, "at a corner: slope of a neighbouring segment", 100);
  }
}
