ID="opposite_magnets_merge"; PROP="D02"
EDITS=[("magnetostatic/properties.cpp","J == p.J && M == p.M && bh_curve","J == p.J && M.norm() == p.M.norm() && bh_curve")]
NEEDS="two magnets of the same strength and different direction"
BREAKS="the second magnet gets the direction of the first"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
using namespace nikfemm;
int main() {
  int bad = 0;
  Drawing<MagnetostaticProp> d;
  Vector m[3] = {{3, 4}, {-3, -4}, {4, -3}};
  for (int i = 0; i < 3; i++) d.drawRegion(Vector(i, 0), {0, m[i], 1, {}});
  for (int i = 0; i < 3; i++) { auto q = *d.getRegionPtrFromId(d.regions[i].second); if (!(q.M == m[i])) { bad++; printf("%d: %g %g\n", i, q.M.x, q.M.y); } }
  return bad != 0;
}
'''
