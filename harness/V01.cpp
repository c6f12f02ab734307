// colours of field values
#include "geo.hpp"
#include "utils/utils.hpp"
void nk_harness() {
  int part = nk_choose("part", 3);
  if (part == 1) {
    double x = nk_real("x", -30, 30), a = nk_real("a", -9, 9), w = nk_real("w", 0.001, 12), c = nk_real("c", -9, 9), e = nk_real("e", -9, 9), b = nk_choose("backwards", 2) ? a - w : a + w;
    double y = nikfemm::map(x, a, b, c, e);
    nk::eq((y - c) * (b - a), (x - a) * (e - c), "linear map", 1e4);
    nk::eq(nikfemm::map(a, a, b, c, e), c, "linear map"); nk::eq(nikfemm::map(b, a, b, c, e), e, "linear map");
    return;
  }
  if (part == 2) {
    double x = nk_real("x", -30, 30), a = nk_real("a", -9, 9), b = a + nk_real("w", 0, 12), y = limit(x, a, b);
    nk::cmp(y, ">=", a, "limited value is in range"); nk::cmp(y, "<=", b, "limited value is in range");
    int zone = nk_choose("zone", 3);
    if (zone == 0) { nk_assume(x, "<=", a); nk::eq(y, a, "limited from below"); }
    if (zone == 1) { nk_assume(x, ">=", a); nk_assume(x, "<=", b); nk::eq(y, x, "values in range are kept"); }
    if (zone == 2) { nk_assume(x, ">=", b); nk::eq(y, b, "limited from above"); }
    return;
  }
  double lo = nk_real("lo", -9, 9), d = 0, v = nk_real("v", -30, 30);
  int flat = nk_choose("constant field", 2);
  if (!flat) d = nk_real("d", 0.001, 12);
  cv::Scalar c = val2jet(v, lo, lo + d);
  for (int i = 0; i < 3; i++) { nk::cmp(c[i], ">=", 0, flat ? "constant field: channels are in range" : "channels are in range"); nk::cmp(c[i], "<=", 255, flat ? "constant field: channels are in range" : "channels are in range"); }
  if (flat) return;
  double t = (v - lo) / d;
  // blue, cyan, green-ish, yellow, red
  int zone = nk_choose("zone", 6);
  static const double Z[] = {-1e9, 0, 0.25, 0.5, 0.75, 1, 1e9};
  nk_assume(v, ">=", lo + Z[zone] * d); nk_assume(v, "<=", lo + Z[zone + 1] * d);
  double B = 255, G = 255, R = 255;
  if (zone == 0) { G = 0; R = 0; }
  if (zone == 1) { R = 0; G = 255 * 4 * t; }
  if (zone == 2) { R = 0; B = 255 * (2 - 4 * t); }
  if (zone == 3) { B = 0; R = 255 * (4 * t - 2); }
  if (zone == 4) { B = 0; G = 255 * (4 - 4 * t); }
  if (zone == 5) { B = 0; G = 0; }
  nk::eq(c[0], B, "blue channel", 255); nk::eq(c[1], G, "green channel", 255); nk::eq(c[2], R, "red channel", 255);
}
