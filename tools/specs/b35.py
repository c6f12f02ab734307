OPENCV=1
ID="scale_starts_at_zero"; PROP="V01"
EDITS=[("utils/utils.cpp","c[2] = (4 * (v - vmin - 0.5 * dv) / dv) * 255;","c[2] = (4 * (v - 0.5 * dv) / dv) * 255;")]
NEEDS="a picture whose values do not start at zero"
BREAKS="the yellow part of the colour scale is computed from the value instead of its place in the range"
DEMO=r'''
#include <opencv2/core.hpp>
#include <nikfemm.hpp>
#include <cstdio>
using namespace nikfemm;
int main() {
  int bad = 0;
  for (double base : {0.0, 3.0, -2.0, 0.4}) for (int k = 0; k <= 40; k++) {
    cv::Scalar c = val2jet(base + k / 40.0, base, base + 1);
    for (int i = 0; i < 3; i++) if (c[i] < -1e-6 || c[i] > 255 + 1e-6) { bad++; printf("%g %d: %g\n", base, k, c[i]); }
  }
  return bad != 0;
}
'''
