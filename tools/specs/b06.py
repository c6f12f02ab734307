ID="shared_edge_twice"; PROP="D01"
EDITS=[("drawing/drawing.hpp","if (s.p1 == p1_id && s.p2 == p2_id || s.p1 == p2_id && s.p2 == p1_id) {","if (s.p1 == p1_id && s.p2 == p2_id) {")]
NEEDS="two figures sharing an edge that they run through in opposite directions"
BREAKS="the shared edge is stored twice"
DEMO=r'''
#include "drawing/drawing.hpp"
#include "current_density/properties.hpp"
#include <cstdio>
using namespace nikfemm;
int main() {
  Drawing<CurrentDensityProp> d;
  d.drawRectangle(Vector(0, 0), Vector(2, 1));
  d.drawRectangle(Vector(2, 0), Vector(5, 1));
  if (d.segments.size() != 7) { printf("%zu segments\n", d.segments.size()); return 1; }
  return 0;
}
'''
