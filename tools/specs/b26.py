ID="saturation_slope_of_whole_curve"; PROP="S04"
EDITS=[("magnetostatic/properties.cpp","""            double B1 = (--it)->B;
            double H1 = it->H;
            double B2 = (--it)->B;
            double H2 = it->H;""","""            double B1 = (--it)->B;
            double H1 = it->H;
            double B2 = (it = bh_curve.begin())->B;
            double H2 = it->H;""")]
NEEDS="a curve of three or more points and a field beyond its last point"
BREAKS="a saturated material gets the mean slope of its whole curve instead of that of the last segment"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  int bad = 0;
  MagnetostaticProp p = {0, {0, 0}, 1, {{0.5, 100}, {1.0, 300}, {1.5, 2300}}};
  double want[][2] = {{0.2, 0.5 / 200}, {0.7, 0.5 / 200}, {1.2, 0.5 / 2000}, {1.9, 0.5 / 2000}};
  for (auto &w : want) if (std::fabs(p.getMu(w[0]) - w[1]) > 1e-12) { bad++; printf("B %g: %g, not %g\n", w[0], p.getMu(w[0]), w[1]); }
  return bad != 0;
}
'''
