ID="last_inner_figure_decides"; PROP="D05"
EDITS=[("drawing/drawing.hpp","""                    if (polygon.contains(region.first)) {
                        found = true;
                        break;
                    }
                }
                if (!found) {""","""                    found = polygon.contains(region.first);
                }
                if (!found) {""")]
NEEDS="a figure around two others, the first of which has its material marked before the outer figure's own"
BREAKS="the material of an inner figure is reported for the outer one"
DEMO=r'''
#include <nikfemm.hpp>
#include "current_density/properties.hpp"
#include <cstdio>
using namespace nikfemm;
int main() {
  Drawing<CurrentDensityProp> d;
  std::vector<Vector> o = {{0, 0}, {9, 0}, {9, 4}, {0, 4}};
  d.drawPolygon(o); d.drawRectangle(Vector(1, 1), Vector(3, 3)); d.drawRectangle(Vector(5, 1), Vector(7, 3));
  d.drawRegion(Vector(2, 2), CurrentDensityProp{2}); d.drawRegion(Vector(0.5, 0.5), CurrentDensityProp{1}); d.drawRegion(Vector(6, 2), CurrentDensityProp{3});
  double s = d.getPolygonProp(nikfemm::Polygon(o)).sigma;
  printf("%g\n", s);
  return s != 1;
}
'''
