ID="box_from_first_end"; PROP="G06"
EDITS=[("geometry/segment.cpp","p.y <= std::max(s.p1.y, s.p2.y) && p.y >= std::min(s.p1.y, s.p2.y)","p.y <= std::max(s.p1.y, s.p2.y) && p.y >= s.p1.y")]
NEEDS="a falling segment"
BREAKS="no point is in the box of a segment that falls"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
using namespace nikfemm;
int main() {
  int bad = 0;
  Vector e[4][2] = {{{0, 0}, {2, 1}}, {{2, 1}, {0, 0}}, {{0, 1}, {2, 0}}, {{2, 0}, {0, 1}}};
  for (auto &s : e) { if (!Segment::pointInSegmentBB(Vector(1, 0.5), Segment(s[0], s[1]))) bad++; if (Segment::pointInSegmentBB(Vector(1, 1.5), Segment(s[0], s[1]))) bad++; if (Segment::pointInSegmentBB(Vector(1, -.5), Segment(s[0], s[1]))) bad++; }
  printf("%d\n", bad);
  return bad != 0;
}
'''
