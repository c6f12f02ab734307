ID="turn_about_the_origin_in_y"; PROP="G01"
EDITS=[("geometry/vector.hpp","return (*this - center).rotate(angle) + center;","Vector d = (*this - center).rotate(angle); return center.y < 0 ? d - center : d + center;")]
NEEDS="a rotation about a point below the x axis"
BREAKS="the rotated point is displaced"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
#include <cmath>
using namespace nikfemm;
int main() {
  int bad = 0;
  for (double y : {-2.0, 0.0, 3.0}) {
    Vector r = Vector(4, y + 1).rotate(M_PI / 2, Vector(3, y));
    if (std::hypot(r.x - 2, r.y - (y + 1)) > 1e-9) { bad++; printf("%g: %g %g\n", y, r.x, r.y); }
  }
  return bad != 0;
}
'''
