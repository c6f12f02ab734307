ID="sharp_angle_of_neighbours_only"; PROP="D04"
EDITS=[("drawing/drawing.hpp","""for (uint32_t k = j + 1; k < segments_containing_point.size(); k++) {""","""for (uint32_t k = j + 1; k < segments_containing_point.size() && k == j + 1; k++) {""")]
NEEDS="a corner of three or more edges whose only sharp angle is between edges that were not drawn one after the other"
BREAKS="the corner is not refined"
DEMO=r'''
#include <nikfemm.hpp>
#include "current_density/properties.hpp"
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  // edges of the corner at the origin: 0, 170 and 45 degrees, in this order
  Drawing<CurrentDensityProp> d;
  auto at = [](double a) { return Vector(4 * cos(a * M_PI / 180), 4 * sin(a * M_PI / 180)); };
  d.drawPolygon({{0, 0}, at(0), {3, -9}, {-9, -9}, at(170)});     // first and last edge meet in the origin
  d.drawPolygon({at(45), {0, 0}, at(170), {-2, 9}});
  d.addRefiningPoints();
  int near = 0;
  for (auto &p : d.points) if (p.norm() > 1e-9 && p.norm() < 3) near++;
  printf("%d\n", near);
  return near == 0;
}
'''
