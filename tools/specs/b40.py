ID="upright_enclosing_overlap"; PROP="G03"
EDITS=[("geometry/segment.cpp","return (s1p1.y < s2p1.y) != (s1p1.y < s2p2.y);","return (s1p1.x < s2p1.x) != (s1p1.x < s2p2.x);")]
NEEDS="two upright segments of one line, the second one longer at both ends"
BREAKS="such segments count as disjoint"
DEMO=r'''
#include <nikfemm.hpp>
#include <cstdio>
using namespace nikfemm;
int main() {
  int bad = 0;
  for (int d = 0; d < 3; d++) for (int o = 0; o < 4; o++) {
    Vector u(d == 0 ? 1 : d == 1 ? 0 : 1, d == 0 ? 0 : 1), b(3, 5);
    Vector p = b + u, q = b + u * 2, r = b, s = b + u * 4;
    if (o & 1) std::swap(p, q);
    if (o & 2) std::swap(r, s);
    if (!Segment::segmentsIntersect(p, q, r, s)) { bad++; printf("%d %d\n", d, o); }
    if (!Segment::segmentsIntersect(r, s, p, q)) { bad++; printf("%d %d swapped\n", d, o); }
    if (Segment::segmentsIntersect(p, q, r + u * 9, s + u * 9)) bad++;
  }
  return bad != 0;
}
'''
