ID="closing_edge_without_tolerance"; PROP="G05"
EDITS=[("geometry/polygon.cpp","""        for (size_t i = 0; i < points.size(); i++) {
            Vector A = points[i];
            Vector B = points[(i + 1) % points.size()];

            if (Segment""","""        for (size_t i = 0; i + 1 < points.size(); i++) {
            Vector A = points[i];
            Vector B = points[i + 1];

            if (Segment""")]
NEEDS="a point near the edge from the last corner to the first, away from those corners' other edges"
BREAKS="the tolerance does not apply along the closing edge of a figure"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
using namespace nikfemm;
int main() {
  nikfemm::Polygon p({{0, 0}, {4, 0}, {4, 4}, {0, 4}});
  int bad = 0;
  for (double x : {-0.01, 0.01}) { if (!p.contains(Vector(x, 2), true, 0.1)) bad++; if (p.contains(Vector(x, 2), false, 0.1)) bad++; }
  printf("%d\n", bad);
  return bad != 0;
}
'''
