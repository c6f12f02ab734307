ID="marks_left_behind"; PROP="D03"
EDITS=[("drawing/drawing.hpp","""            polygons[i].translate(v);
        }
        for (uint32_t i = 0; i < regions.size(); i++) {
            regions[i].translate(v);
        }""","""            polygons[i].translate(v);
            if (i < regions.size()) {
                regions[i].translate(v);
            }
        }""")]
NEEDS="a drawing with more material marks than figures"
BREAKS="marks beyond the number of figures are not moved"
DEMO=r'''
#include "drawing/drawing.hpp"
#include "current_density/properties.hpp"
#include <cmath>
#include <cstdio>
using namespace nikfemm;
int main() {
  Drawing<CurrentDensityProp> d;
  d.drawRectangle(Vector(0, 0), Vector(2, 1));
  d.drawRegion(Vector(0.5, 0.5), CurrentDensityProp{1});
  d.drawRegion(Vector(1.5, 0.5), CurrentDensityProp{1});
  d.translate(Vector(10, 20));
  for (auto &r : d.regions) if (r.first.x < 10 || r.first.y < 20) { printf("mark at %g %g\n", r.first.x, r.first.y); return 1; }
  return 0;
}
'''
