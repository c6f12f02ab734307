ID="beyond_the_second_end"; PROP="G02"
EDITS=[("geometry/segment.cpp","""        else if (param > 1) {
            return Vector::distance(p, p2);""","""        else if (param > 1 + 1e-3) {
            return Vector::distance(p, p2);""")]
NEEDS="a point just behind the second end of a long segment"
BREAKS="the distance of such a point is the one to the prolonged segment"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  int bad = 0;
  for (double t : {0.5, 1.0, 1.0004, 1.01, -0.0004}) {
    double x = 1000 * t, want = std::hypot(t > 1 ? x - 1000 : t < 0 ? -x : 0, 0.1);
    double d = Segment::pointSegmentDistance(Vector(x, 0.1), Vector(0, 0), Vector(1000, 0));
    if (std::fabs(d - want) > 1e-9) { bad++; printf("%g: %g, not %g\n", t, d, want); }
  }
  return bad != 0;
}
'''
