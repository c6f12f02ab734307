From 0ab6940406d4a25e9a9551521d8b75fcd288d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 01/42] fix: BaseCSR assumed that every diagonal element is
 stored in the COO matrix

---
 lib/nikfemm/src/algebra/csr.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/algebra/csr.cpp b/lib/nikfemm/src/algebra/csr.cpp
index 74025f0..44f1245 100644
--- a/lib/nikfemm/src/algebra/csr.cpp
+++ b/lib/nikfemm/src/algebra/csr.cpp
@@ -62,7 +62,10 @@ namespace nikfemm {
             return a.first < b.first;
         });
 
-        nnz = elems.size() - m;
+        // the diagonal is stored separately and not every diagonal element has to be present
+        nnz = std::count_if(elems.begin(), elems.end(), [](const auto& elem) {
+            return (elem.first >> 32) != (elem.first & 0xFFFFFFFF);
+        });
 
         row_ptr = std::vector<uint32_t>(m + 1, 0);
         col_ind = std::vector<uint32_t>(nnz);
-- 
2.43.0


From 9e4ec70e7366ed1be71255490387f08b01fae1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 02/42] fix: NonLinearMatCSRSymmetric assumed that every
 diagonal element is stored in the COO matrix

---
 lib/nikfemm/src/algebra/non_linear.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/algebra/non_linear.cpp b/lib/nikfemm/src/algebra/non_linear.cpp
index f9a2e96..0d6ea7d 100644
--- a/lib/nikfemm/src/algebra/non_linear.cpp
+++ b/lib/nikfemm/src/algebra/non_linear.cpp
@@ -23,7 +23,10 @@ namespace nikfemm {
         // sort elems by key
         std::sort(keys.begin(), keys.end());
 
-        nnz = coo.elems.size() - m;
+        // the diagonal is stored separately and not every diagonal element has to be present
+        nnz = std::count_if(keys.begin(), keys.end(), [](const uint64_t key) {
+            return (key >> 32) != (key & 0xFFFFFFFF);
+        });
 
         row_ptr = std::vector<uint32_t>(m + 1, 0);
         col_ind = std::vector<uint32_t>(nnz);
@@ -58,7 +61,7 @@ namespace nikfemm {
         // diagonal
         for (uint32_t i = 0; i < m; i++) {
             double old_val = diag[i];
-            diag[i] = diag_expr[i]->evaluate(mu);
+            diag[i] = diag_expr[i] ? diag_expr[i]->evaluate(mu) : 0;
         }
         // off-diagonal
         for (uint32_t i = 0; i < nnz; i++) {
-- 
2.43.0


From b3a36e1669444014e709cfd2adb576f309482c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 03/42] fix: incomplete Cholesky inverse kept a stale factor
 entry when its new value is zero

---
 lib/nikfemm/src/algebra/solvers.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index ecf0bcc..5ca8840 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -65,11 +65,9 @@ namespace nikfemm {
                         sum += R.val[k] * R(R.col_ind[k], j);
                     }
                 }
-                if (sum != 0) {
-                    for (uint32_t k = R.row_ptr[i]; k < R.row_ptr[i + 1]; k++) {
-                        if (R.col_ind[k] == j) {
-                            R.val[k] = -sum * R.diag[i];
-                        }
+                for (uint32_t k = R.row_ptr[i]; k < R.row_ptr[i + 1]; k++) {
+                    if (R.col_ind[k] == j) {
+                        R.val[k] = -sum * R.diag[i];
                     }
                 }
             }
-- 
2.43.0


From acbc76dff94a26f7787cbb1a0b23803c30769cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 04/42] fix: Jacobi conjugate gradient solver divided zero by
 zero when started from the solution

---
 lib/nikfemm/src/algebra/solvers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index 5ca8840..ef7e6fa 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -129,6 +129,10 @@ namespace nikfemm {
         std::vector<double> Ap(b.size());
         double rTzold;
         double squareError = squareSum(r);
+        if (squareError < maxError * maxError) {
+            nloginfo("converged after 0 iterations");
+            return;
+        }
         for (uint32_t i = 0; i < maxIterations; i++) {
             mult(Ap, A, p);
             double alpha = dot(r, z) / dot(p, Ap);
-- 
2.43.0


From fe69511c92554cfa22de5dd78b4f1a0f7c63d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 05/42] fix: enclosing circle radius was measured from the
 origin instead of from its center

---
 lib/nikfemm/src/geometry/circle.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index de327e3..ee96b96 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -90,13 +90,17 @@ namespace nikfemm {
         double maxmod = 0;
         Vector center = {0, 0};
         for (auto p : points) {
-            double mod = p.norm();
+            center += p;
+        }
+        if (!points.empty()) {
+            center /= points.size();
+        }
+        for (auto p : points) {
+            double mod = Vector::distance(center, p);
             if (mod > maxmod) {
                 maxmod = mod;
             }
-            center += p;
         }
-        center /= points.size();
         return Circle(center, maxmod);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 492e08a130ac5a91f7b8f292dc71ad977886afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 06/42] fix: distance to a segment of zero length was not a
 number

---
 lib/nikfemm/src/geometry/segment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index 50ec3de..e4f100a 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -84,6 +84,9 @@ namespace nikfemm {
         return Vector::distance(p, projection);
         */
         // return pointSegmentDistance(p, Segment(p1, p2));
+        if (p1.x == p2.x && p1.y == p2.y) {
+            return Vector::distance(p, p1);
+        }
         double param = ((p - p1) * (p2 - p1)) / Vector::distanceSquared(p1, p2);
         if (param < 0) {
             return Vector::distance(p, p1);
-- 
2.43.0


From e4508f6fee36c486fbb455e3cda32d54cc6472ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:42 +0000
Subject: [PATCH 07/42] fix: segment intersection missed segments that touch at
 an end point

---
 lib/nikfemm/src/geometry/segment.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index e4f100a..069ad69 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -109,11 +109,11 @@ namespace nikfemm {
         double d_area = area(s1p1, s1p2, s2p2);
         if (std::abs(c_area) < epsilon) {
             if (std::abs(s2p1.x-s1p1.x) < epsilon) {
-                if (std::min(s1p1.y,s1p2.y)-epsilon < s2p1.y && s2p1.y < std::max(s1p1.y,s1p2.y)+epsilon) {
+                if (std::min(s1p1.y,s1p2.y) <= s2p1.y && s2p1.y <= std::max(s1p1.y,s1p2.y)) {
                     return true;
                 }
             } else {
-                if (std::min(s1p1.x,s1p2.x)-epsilon < s2p1.x && s2p1.x < std::max(s1p1.x,s1p2.x)+epsilon) {
+                if (std::min(s1p1.x,s1p2.x) <= s2p1.x && s2p1.x <= std::max(s1p1.x,s1p2.x)) {
                     return true;
                 }
             }
@@ -123,11 +123,11 @@ namespace nikfemm {
         }
         if (std::abs(d_area) < epsilon) {
             if (std::abs(s2p2.x-s1p1.x) < epsilon) {
-                if (std::min(s1p1.y,s1p2.y)-epsilon < s2p2.y && s2p2.y < std::max(s1p1.y,s1p2.y)+epsilon) {
+                if (std::min(s1p1.y,s1p2.y) <= s2p2.y && s2p2.y <= std::max(s1p1.y,s1p2.y)) {
                     return true;
                 }
             } else {
-                if (std::min(s1p1.x,s1p2.x)-epsilon < s2p2.x && s2p2.x < std::max(s1p1.x,s1p2.x)+epsilon) {
+                if (std::min(s1p1.x,s1p2.x) <= s2p2.x && s2p2.x <= std::max(s1p1.x,s1p2.x)) {
                     return true;
                 }
             }
@@ -145,6 +145,9 @@ namespace nikfemm {
         }
         double a_area = area(s2p1, s2p2, s1p1);
         double b_area = area(s2p1, s2p2, s1p2);
+        if (std::abs(a_area) < epsilon || std::abs(b_area) < epsilon) {
+            return true;
+        }
         return (a_area > 0) != (b_area > 0);
     }
 
-- 
2.43.0


From 21f74e659c13b95eccf3a057cc74ea660ee5ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:04 +0000
Subject: [PATCH 08/42] fix: crossing segments were accepted when no new end
 point lies in the old segment's bounding box

---
 lib/nikfemm/src/drawing/drawing.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index e53bdbc..791ee1d 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -12,6 +12,7 @@
 #include <set>
 #include <chrono>
 #include <array>
+#include <algorithm>
 
 #ifdef NIKFEMM_USE_OPENCV
 #include <opencv2/core/core.hpp>
@@ -236,7 +237,8 @@ namespace nikfemm {
                 continue;
             }
             // before checking for intersection, check if the segments have overlapping bounding boxes to avoid unnecessary intersection checks
-            if (!(Segment::pointInSegmentBB(p1, points[s.p1], points[s.p2]) || Segment::pointInSegmentBB(p2, points[s.p1], points[s.p2]))) {
+            if (std::max(p1.x, p2.x) < std::min(points[s.p1].x, points[s.p2].x) || std::max(points[s.p1].x, points[s.p2].x) < std::min(p1.x, p2.x) ||
+                std::max(p1.y, p2.y) < std::min(points[s.p1].y, points[s.p2].y) || std::max(points[s.p1].y, points[s.p2].y) < std::min(p1.y, p2.y)) {
                 continue;
             }
             // check for intersection
-- 
2.43.0


From 51ade7d4a23d755c61a84700707aa79ca636dce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:04 +0000
Subject: [PATCH 09/42] fix: drawing a polygon without points read out of
 bounds

---
 lib/nikfemm/src/drawing/drawing.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 791ee1d..399977b 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -148,6 +148,9 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawPolygon(Vector* points, uint32_t n_points) {
+        if (n_points == 0) {
+            nexit("Error: polygon has no points");
+        }
         for (uint32_t i = 0; i < n_points - 1; i++) {
             drawSegment(points[i], points[i + 1]);
         }
-- 
2.43.0


From b98612bd0e6ff0b204a2e36727bee8c3d728c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 10/42] fix: the material of a polygon holding other polygons
 was not found

---
 lib/nikfemm/src/drawing/drawing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 399977b..7510b2f 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -402,7 +402,7 @@ namespace nikfemm {
             // if there are multiple regions, this means that there are polygons inside this polygon
             std::vector<Polygon> polygons_contained_by_polygon;
             for (Polygon polygon : polygons) {
-                if (p.contains(polygon)) {
+                if (polygon != p && p.contains(polygon)) {
                     polygons_contained_by_polygon.push_back(polygon);
                 }
             }
-- 
2.43.0


From d54bc157e34361c6c9e80c806c8bd1aea0604800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 11/42] fix: large area limits overflowed the mesher option
 buffer

---
 lib/nikfemm/src/mesh/mesh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index caa133c..1df9899 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -216,8 +216,8 @@ namespace nikfemm {
             i++;
         }
         // printf("----------------------\n");
-        char switches[42];
-        sprintf(switches, "pzq%dAQa%.17f", min_angle, max_triangle_area);
+        char switches[400]; // a double printed with %f can take more than 300 characters
+        snprintf(switches, sizeof(switches), "pzq%dAQa%.17f", min_angle, max_triangle_area);
         
 
         /* Make necessary initializations so that Triangle can return a */
-- 
2.43.0


From bfc41086dd6e1cdf6d0ef14692cfdab55a36256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 12/42] fix: computeCurl returned the opposite of the curl

---
 lib/nikfemm/src/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 1df9899..aab1049 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -405,7 +405,7 @@ namespace nikfemm {
             
             // printf("dx = %.17g dy = %.17g for elem (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g)\n", dx, dy, x1, y1, z1, x2, y2, z2, x3, y3, z3);
 
-            out[i] = Vector(-dy, dx);
+            out[i] = Vector(dy, -dx);
         }
 
         return out;
-- 
2.43.0


From 82c701a4afb88802bb043986dad2570cb0e0b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 13/42] fix: a mesh point in the center of the exterior disc
 was mapped to not-a-number

---
 lib/nikfemm/src/mesh/mesh.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index aab1049..4a171d5 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -261,6 +261,11 @@ namespace nikfemm {
             if (data.pointmarkerlist[i] == 0) {  // if it's not a boundary point
                 Vector v = data.pointlist[i];
                 double mag_squared = v.x * v.x + v.y * v.y;
+                if (mag_squared == 0) {
+                    // the origin stands for infinity, it has no direction to be scaled along
+                    data.pointlist[i] = Vector(radius * max_radius_coeff, 0);
+                    continue;
+                }
                 double scale = R_squared / mag_squared;
                 // printf("v = (%f, %f) -> (%f, %f), mag = %f, scale = %f", v->p.x, v->p.y, v->p.x * scale, v->p.y * scale, mag_squared, scale);
                 double dist = Vector::distance(v, center);
-- 
2.43.0


From da29f1ec686018eb409304b0cc3dd1b333567b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:25 +0000
Subject: [PATCH 14/42] fix: exterior boundary points without a partner were
 left with undefined indices

---
 lib/nikfemm/src/mesh/mesh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 4a171d5..60cca65 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -343,9 +343,9 @@ namespace nikfemm {
         // data.pointattributelist = (TRI_REAL *) realloc(data.pointattributelist, new_point_number * sizeof(TRI_REAL));
         // data.pointmarkerlist = (int *) realloc(data.pointmarkerlist, new_point_number * sizeof(int));
 
-        // add kelvin mesh non boundary vertices to this mesh
+        // add kelvin mesh vertices that this mesh does not have to this mesh (the mesher may split boundary edges)
         for (uint32_t i = 0; i < kelvin_mesh.data.numberofpoints; i++) {
-            if (!kelvin_mesh.data.pointmarkerlist[i]) {
+            if (!kelvin_to_this.count(i)) {
                 data.pointlist[data.numberofpoints] = kelvin_mesh.data.pointlist[i];
                 // data.pointmarkerlist[data.numberofpoints] = 0;
                 kelvin_to_this[i] = data.numberofpoints;
-- 
2.43.0


From 8c9765052ee84a726237295a8158e9ccb692d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 15/42] fix: triangles outside of a nonconvex figure were
 integrated when their corners touch it

---
 lib/nikfemm/src/mesh/mesh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 60cca65..b0f2cb3 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -502,7 +502,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (integration_region.contains((p1 + p2 + p3) / 3)) {
                 area += Vector::area(p1, p2, p3);
             }
         }
@@ -528,7 +528,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (integration_region.contains((p1 + p2 + p3) / 3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 area += triangle_area;
                 barycenter += ((p1 + p2 + p3) / 3) * triangle_area;
@@ -549,7 +549,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (integration_region.contains((p1 + p2 + p3) / 3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
                 Vector r = triangle_barycenter - center;
-- 
2.43.0


From acf012f09a0b4e6f67a30b61e16fb04400df85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 16/42] fix: center of mass and moment of inertia ignored that
 the mesh is centered in the origin

---
 lib/nikfemm/src/mesh/mesh.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index b0f2cb3..7c69159 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -535,7 +535,8 @@ namespace nikfemm {
             }
         }
 
-        return barycenter / area;
+        // the mesh is centered in the origin
+        return barycenter / area + this->center;
     }
 
     template <typename Prop>
@@ -552,7 +553,7 @@ namespace nikfemm {
             if (integration_region.contains((p1 + p2 + p3) / 3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
-                Vector r = triangle_barycenter - center;
+                Vector r = triangle_barycenter + this->center - center;
                 moment += triangle_area * r.normSquared();
             }
         }
-- 
2.43.0


From 95e20f2d1b58de6f50c5bbf423c8fac9927c1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 17/42] fix: moment of inertia ignored the triangles' own
 moments

---
 lib/nikfemm/src/mesh/mesh.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 7c69159..d727d1d 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -554,7 +554,9 @@ namespace nikfemm {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
                 Vector r = triangle_barycenter + this->center - center;
-                moment += triangle_area * r.normSquared();
+                // the triangle's own moment about its barycenter and the parallel axis term
+                double edges_squared = (p2 - p1).normSquared() + (p3 - p2).normSquared() + (p1 - p3).normSquared();
+                moment += triangle_area * (edges_squared / 36 + r.normSquared());
             }
         }
 
-- 
2.43.0


From de73412c3c269e53eee2963384e601ff4a4b3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:54 +0000
Subject: [PATCH 18/42] fix: a polygon that leaves a nonconvex polygon through
 a notch counted as contained

---
 lib/nikfemm/src/geometry/polygon.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/lib/nikfemm/src/geometry/polygon.cpp b/lib/nikfemm/src/geometry/polygon.cpp
index 2a7e08e..bba5c90 100644
--- a/lib/nikfemm/src/geometry/polygon.cpp
+++ b/lib/nikfemm/src/geometry/polygon.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "polygon.hpp"
 #include "segment.hpp"
 
@@ -98,6 +100,30 @@ namespace nikfemm {
             }
         }
 
+        // an edge between two contained corners can still leave a nonconvex polygon:
+        // cut it where it meets the boundary and look at the middle of every piece
+        const double tolerance = 1e-9;
+        for (size_t i = 0; i < p.points.size(); i++) {
+            Vector a = p.points[i];
+            Vector ab = p.points[(i + 1) % p.points.size()] - a;
+            std::vector<double> cuts = {0, 1};
+            for (size_t j = 0; j < points.size(); j++) {
+                Vector c = points[j];
+                Vector cd = points[(j + 1) % points.size()] - c;
+                double det = ab.x * cd.y - ab.y * cd.x;
+                if (det == 0) continue;
+                double t = ((c.x - a.x) * cd.y - (c.y - a.y) * cd.x) / det;
+                double u = ((c.x - a.x) * ab.y - (c.y - a.y) * ab.x) / det;
+                if (t > 0 && t < 1 && u >= -tolerance && u <= 1 + tolerance) cuts.push_back(t);
+            }
+            std::sort(cuts.begin(), cuts.end());
+            for (size_t j = 0; j + 1 < cuts.size(); j++) {
+                if (!contains(a + ab * ((cuts[j] + cuts[j + 1]) / 2), true, tolerance * ab.norm())) {
+                    return false;
+                }
+            }
+        }
+
         return true;
     }
 
-- 
2.43.0


From 7bbd1f26f390eab714973dba16d609da77fc2355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:37 +0000
Subject: [PATCH 19/42] fix: the colour of a constant field was not a number

---
 lib/nikfemm/src/utils/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/nikfemm/src/utils/utils.cpp b/lib/nikfemm/src/utils/utils.cpp
index 4bb0c40..be8d6ae 100644
--- a/lib/nikfemm/src/utils/utils.cpp
+++ b/lib/nikfemm/src/utils/utils.cpp
@@ -58,6 +58,7 @@ namespace nikfemm {
         dv = vmax - vmin;
 
         dv = vmax - vmin;
+        if (dv == 0) dv = 1; // constant field
 
         // opencv is BGR
         if (v < (vmin + 0.25 * dv)) {
-- 
2.43.0


From 62d3fc6d788d9e4feed614d6a3c5d218ef3d784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:38 +0000
Subject: [PATCH 20/42] fix: nodes with more than 18 triangles overflowed the
 assembly's neighbour lists

---
 lib/nikfemm/src/current_density/mesh.cpp | 13 ++++++-------
 lib/nikfemm/src/magnetostatic/mesh.cpp   | 11 +++++------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/lib/nikfemm/src/current_density/mesh.cpp b/lib/nikfemm/src/current_density/mesh.cpp
index b9de0d6..d8aeea5 100644
--- a/lib/nikfemm/src/current_density/mesh.cpp
+++ b/lib/nikfemm/src/current_density/mesh.cpp
@@ -11,25 +11,24 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            if (adjelems_count[i] == 0) {
+            if (adjelems_ids[i].empty()) {
                 nlogerror("vertex %d has no adjacent elements", i);
                 nexit("error: vertex has no adjacent elements");
             }
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index a8b1f06..5f3f0c2 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -12,21 +12,20 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const MagnetostaticProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const MagnetostaticProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
-- 
2.43.0


From 09299917b84959b3a0375112599b628dba7568b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:51 +0000
Subject: [PATCH 21/42] fix: magnet surface currents were doubled, counted once
 per corner for a lone magnet and ignored holes and nested figures

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 127 +------------------------
 1 file changed, 3 insertions(+), 124 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 5f3f0c2..1855026 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -63,130 +63,9 @@ namespace nikfemm {
 
                 // set the b vector
                 system.b[i] += (double_area * adjelems_props[i][j]->J) / 6;
-            }
-        }
-
-        // line integral
-        // in this section we find all the edges where there is a surface current (i.e. the edges where the M vector changes from element to element)
-        // to do this first of all we find all the segments in the drawing that are subject to a surface current and their outward normal
-        struct SurfaceCurrentSegment {
-            Vector p1, p2; // the two points that define the segment
-            double Jm; // surface current density on the segment (M x n) (pointing normal to the simulation plane)
-        };
-
-        // first we have to find the polygons that are magnets
-        // if the polygon contains a region that is a magnet and it does not contain any other polygon that contains the same region then it is a magnet
-        std::map<uint32_t, std::vector<Polygon>> polygons_that_contain_magnet_region;
-        for (auto region :drawing.regions) {
-            if (drawing.region_map[region.second].M != Vector(0, 0)) {
-                for (auto polygon : drawing.polygons) {
-                    if (polygon.contains(region.first)) {
-                        polygons_that_contain_magnet_region[region.second].push_back(polygon);
-                    }
-                }
-            }
-        }
-
-        struct Magnet {
-            Polygon polygon;
-            Vector M;
-            std::vector<SurfaceCurrentSegment> segments;
-        };
-
-        std::vector<Magnet> magnets;
-        for (auto region_poly_array : polygons_that_contain_magnet_region) {
-            if (region_poly_array.second.size() == 1) {
-                // this is a magnet
-                for (auto point : region_poly_array.second[0].points) {
-                    magnets.push_back({region_poly_array.second[0], drawing.region_map[region_poly_array.first].M, {}});
-                }
-            } else {
-                // this array contains a magnet and other polygons that contain the polygon that is a magnet
-                // we need to find the polygon that does not contain any other polygon that contains the same region
-                for (auto polygon : region_poly_array.second) {
-                    bool is_magnet = true;
-                    for (auto other_polygon : region_poly_array.second) {
-                        if (polygon != other_polygon && polygon.contains(other_polygon)) {
-                            is_magnet = false;
-                            break;
-                        }
-                    }
-                    if (is_magnet) {
-                        magnets.push_back({polygon, drawing.region_map[region_poly_array.first].M, {}});
-                    }
-                }
-            }
-        }
-
-        // now we have to find the segments that are subject to a surface current and their outward normal
-        for (auto &magnet : magnets) {
-            for (uint32_t i = 0; i < magnet.polygon.points.size(); i++) {
-                uint32_t j = (i + 1) % magnet.polygon.points.size();
-                Vector p1 = magnet.polygon.points[i];
-                Vector p2 = magnet.polygon.points[j];
-                Vector n = (p2 - p1).normal().normalize();
-                // we need the outward normal
-                Vector test = Vector::midPoint(p1, p2) + (n * epsilon * 0.1);  // 0.1 just to make sure that we get no false negatives
-                if (magnet.polygon.contains(test)) {
-                    n = n * -1;
-                }
-                // draw arrow from the middle of p1 and p2 in the direction of n
-                Vector mid = Vector::midPoint(p1, p2);
-                double Jm = magnet.M ^ n;
-                magnet.segments.push_back({p1, p2, Jm});
-            }
-        }
-
-        // now we have to find the edges that are subject to a surface current
-        // i.e. the edges that lie on a segment that is subject to a surface current
-        // edges should be unique
-
-        // we need an unique list of edges
-        struct Edge {
-            uint32_t v1, v2;
-        };
-
-        struct EdgeHash {
-            static uint64_t edge_unique_hash(uint32_t v1, uint32_t v2) {
-                return (uint64_t)v1 << 32 | (uint64_t)v2;
-            }
-            std::size_t operator()(const Edge& edge) const {
-                return edge_unique_hash(edge.v1, edge.v2) * (edge.v1 > edge.v2) + edge_unique_hash(edge.v2, edge.v1) * (edge.v1 <= edge.v2);
-            }
-        };
-
-        struct EdgeEqual {
-            bool operator()(const Edge& edge1, const Edge& edge2) const {
-                return (edge1.v1 == edge2.v1 && edge1.v2 == edge2.v2) || (edge1.v1 == edge2.v2 && edge1.v2 == edge2.v1);
-            }
-        };
-
-        std::unordered_set<Edge, EdgeHash, EdgeEqual> edges;
-        edges.reserve((data.numberofpoints - 2) * 3);
-
-        for (uint32_t i = 0; i < data.numberoftriangles; i++) {
-            edges.insert({(uint32_t)data.trianglelist[i][0], (uint32_t)data.trianglelist[i][1]});
-            edges.insert({(uint32_t)data.trianglelist[i][1], (uint32_t)data.trianglelist[i][2]});
-            edges.insert({(uint32_t)data.trianglelist[i][2], (uint32_t)data.trianglelist[i][0]});
-        }
-
-        nloginfo("number of edges: %d, predicted number of edges: %d", edges.size(), (data.numberofpoints - 2) * 3);
-        
-
-        for (auto edge : edges) {
-            Vector p1 = data.pointlist[edge.v1];
-            Vector p2 = data.pointlist[edge.v2];
-            for (auto magnet : magnets) {
-                for (auto segment : magnet.segments) {
-                    double dist1 = Segment::pointSegmentDistance(p1, segment.p1, segment.p2);
-                    double dist2 = Segment::pointSegmentDistance(p2, segment.p1, segment.p2);
-                    if (dist1 < epsilon * 0.1 && dist2 < epsilon * 0.1) {
-                        // this edge is subject to a surface current
-                        double length = Vector::distance(p1, p2);
-                        system.b[edge.v1] += length * segment.Jm;
-                        system.b[edge.v2] += length * segment.Jm;
-                    }
-                }
+                // magnetization: integral of M . curl(phi), i.e. half of the surface current (M x n) of every edge where M changes
+                const Vector& M = adjelems_props[i][j]->M;
+                system.b[i] += double_area * (M.x * c1 - M.y * b1) * 0.5;
             }
         }
 
-- 
2.43.0


From d0200a0a607b307000be1ec3cdb8f1e13c5a5b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:22 +0000
Subject: [PATCH 22/42] fix: a point drawn twice was handed to the mesher
 twice, so that resistors meeting at a point were rejected

---
 lib/nikfemm/src/drawing/drawing.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 7510b2f..c80a70b 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -260,6 +260,12 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawPoint(Vector p) {
+        // check if point is already in points
+        for (const Vector& point : points) {
+            if (point == p) {
+                return;
+            }
+        }
         points.push_back(p);
     }
 
-- 
2.43.0


From 34863c5e587fa2b407a0b630e000490156806412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:51 +0000
Subject: [PATCH 23/42] fix: permeability inside a B-H curve used the next
 segment and read past the last point

---
 lib/nikfemm/src/magnetostatic/properties.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/properties.cpp b/lib/nikfemm/src/magnetostatic/properties.cpp
index 05d8734..a7dd085 100644
--- a/lib/nikfemm/src/magnetostatic/properties.cpp
+++ b/lib/nikfemm/src/magnetostatic/properties.cpp
@@ -43,10 +43,10 @@ namespace nikfemm {
             // printf("B is larger than the largest B in the curve, returning mu %.17g\n", m);
             return m;
         } else {
-            // forward difference
+            // slope of the segment that contains B
             double B1 = it->B;
             double H1 = it->H;
-            double B2 = (++it)->B;
+            double B2 = (--it)->B;
             double H2 = it->H;
 
             // mu = dB/dH
-- 
2.43.0


From e78c698d46e5958ec86f8fbfe4a034f8b3021a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:10 +0000
Subject: [PATCH 24/42] fix: interconnections had twice their conductance and
 overwrote instead of adding up

---
 .../src/current_density/multilayer_simulation.cpp     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index f76d258..96ca6a7 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -221,15 +221,18 @@ namespace nikfemm {
             uint64_t m2 = interconnection.node2_id + offsets[interconnection.mesh2_id];
             double R = interconnection.R;
 
+            // both ends on the same node: no current flows through the resistor
+            if (m1 == m2) continue;
+
             // 1.
-            merged_system.A(m1, m1) += 2/R;
-            merged_system.A(m2, m2) += 2/R;
+            merged_system.A(m1, m1) += 1/R;
+            merged_system.A(m2, m2) += 1/R;
 
             // 2.
             if (m1 >= m2) {
-                merged_system.A(m2, m1) = -2/R;
+                merged_system.A(m2, m1) -= 1/R;
             } else {
-                merged_system.A(m1, m2) = -2/R;
+                merged_system.A(m1, m2) -= 1/R;
             }
         }
 
-- 
2.43.0


From ebc967ae8d4763135afe2269b903ecf47178c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 25/42] fix: force integrals overflowed the neighbour lists of
 nodes with more than 18 triangles

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 11 ++++++-----
 lib/nikfemm/src/magnetostatic/simulation.hpp |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 4128817..445eddc 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -223,14 +223,15 @@ namespace nikfemm {
         // EGGSHELL WITH LAPLACE PROBLEM
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(mesh.data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(mesh.data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(mesh.data.numberofpoints);
+        auto adjelems_count = std::vector<uint32_t>(mesh.data.numberofpoints, 0);
 
         nloginfo("computing adjelems_ids");
         for (uint32_t i = 0; i < mesh.data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = mesh.data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]++] = i;
+                adjelems_ids[myid].push_back(i);
+                adjelems_count[myid]++;
             }
         }
 
@@ -352,7 +353,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
@@ -514,7 +515,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/simulation.hpp b/lib/nikfemm/src/magnetostatic/simulation.hpp
index 75243f5..c54b626 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.hpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.hpp
@@ -19,8 +19,8 @@
 
 namespace nikfemm {
     struct SurroundingRegionBlockIntegralAssets {
-        std::vector<std::array<uint32_t, 18>> adjelems_ids;
-        std::vector<uint8_t> adjelems_count;
+        std::vector<std::vector<uint32_t>> adjelems_ids;
+        std::vector<uint32_t> adjelems_count;
         std::vector<double> elem_field_errors;
         double min_err;
         double max_err;
-- 
2.43.0


From 414744e94a40a145aa8547fde255b359b846e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 26/42] fix: force integrals took the outermost instead of the
 nearest surrounding figure

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 445eddc..5ec0451 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -188,7 +188,7 @@ namespace nikfemm {
             for (auto polygon : polygons_that_contain_integration_region) {
                 bool is_outermost_polygon = true;
                 for (auto other_polygon : polygons_that_contain_integration_region) {
-                    if (polygon != other_polygon && polygon.contains(other_polygon)) {
+                    if (polygon != other_polygon && other_polygon.contains(polygon)) {
                         is_outermost_polygon = false;
                         break;
                     }
@@ -200,6 +200,7 @@ namespace nikfemm {
                                     polygons_that_contain_integration_region.end(),
                                     polygon),
                         polygons_that_contain_integration_region.end());
+                    break;
                 }
             }
             count++;
@@ -208,6 +209,10 @@ namespace nikfemm {
             }
         }
 
+        if (polygons_that_contain_integration_region.empty()) {
+            nexit("error: no polygon surrounds the integration region");
+        }
+
         // the boundary region is the polygon that is left
         boundary_region = *polygons_that_contain_integration_region.begin();
 
-- 
2.43.0


From 1e4a30e27ed9c196bd91eeb6e1834c4aeea75ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:25 +0000
Subject: [PATCH 27/42] fix: force integrals fixed the auxiliary function in
 half of the equations only

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 88 +++++++++-----------
 1 file changed, 38 insertions(+), 50 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 5ec0451..95c1f3c 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -414,33 +414,27 @@ namespace nikfemm {
         // std::vector<double> test(mesh.data.numberofpoints, 0);
         // we have to set a 1 dirichlet boundary condition for all the vertices inside the integration region
 
-        uint32_t val = 0;
+        // the matrix is stored as upper triangular, so every element stands for two equations
+        auto is_fixed = [&](uint32_t v) {
+            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] || vertex_inside_integration_region_with_boundary[v];
+        };
+        auto fixed_value = [&](uint32_t v) {
+            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] ? 0. : 1.;
+        };
         for (auto& [id, value] : coo.elems) {
-            uint32_t col = id >> 32;
-            uint32_t row = id & 0xFFFFFFFF;
-
-            bool col_in_zero_region = !vertex_inside_boundary_region[col] || vertex_inside_boundary_region_hole[col];
-            bool col_in_one_region = vertex_inside_integration_region_with_boundary[col];
-
-            double old_value = value;
-
-            if (col_in_zero_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 0;
-                } else {
-                    value = 0;
-                }
-            } else if (col_in_one_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 1;
-                } else {
-                    value = 0;
-                    b[row] -= old_value;
-                }
+            uint32_t row = id >> 32;
+            uint32_t col = id & 0xFFFFFFFF;
+
+            if (row == col) {
+                if (is_fixed(row)) value = 1;
+            } else if (is_fixed(row) || is_fixed(col)) {
+                if (!is_fixed(row)) b[row] -= value * fixed_value(col);
+                if (!is_fixed(col)) b[col] -= value * fixed_value(row);
+                value = 0;
             }
-            val++;
+        }
+        for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
+            if (is_fixed(i)) b[i] = fixed_value(i);
         }
 
         MatCSRSymmetric Ai(coo);
@@ -579,33 +573,27 @@ namespace nikfemm {
         // std::vector<double> test(mesh.data.numberofpoints, 0);
         // we have to set a 1 dirichlet boundary condition for all the vertices inside the integration region
 
-        uint32_t val = 0;
+        // the matrix is stored as upper triangular, so every element stands for two equations
+        auto is_fixed = [&](uint32_t v) {
+            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] || vertex_inside_integration_region_with_boundary[v];
+        };
+        auto fixed_value = [&](uint32_t v) {
+            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] ? 0. : 1.;
+        };
         for (auto& [id, value] : coo.elems) {
-            uint32_t col = id >> 32;
-            uint32_t row = id & 0xFFFFFFFF;
-
-            bool col_in_zero_region = !vertex_inside_boundary_region[col] || vertex_inside_boundary_region_hole[col];
-            bool col_in_one_region = vertex_inside_integration_region_with_boundary[col];
-
-            double old_value = value;
-
-            if (col_in_zero_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 0;
-                } else {
-                    value = 0;
-                }
-            } else if (col_in_one_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 1;
-                } else {
-                    value = 0;
-                    b[row] -= old_value;
-                }
+            uint32_t row = id >> 32;
+            uint32_t col = id & 0xFFFFFFFF;
+
+            if (row == col) {
+                if (is_fixed(row)) value = 1;
+            } else if (is_fixed(row) || is_fixed(col)) {
+                if (!is_fixed(row)) b[row] -= value * fixed_value(col);
+                if (!is_fixed(col)) b[col] -= value * fixed_value(row);
+                value = 0;
             }
-            val++;
+        }
+        for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
+            if (is_fixed(i)) b[i] = fixed_value(i);
         }
 
         MatCSRSymmetric Ai(coo);
-- 
2.43.0


From 5d826050c0398dad425ac996fe051039ab6300ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:25 +0000
Subject: [PATCH 28/42] fix: torque was taken about a point displaced by the
 center of the drawing

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 95c1f3c..7d46327 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -549,7 +549,8 @@ namespace nikfemm {
                 double c3 = (mesh.data.pointlist[v2].x - mesh.data.pointlist[v1].x) / area;
 
                 Vector barycenter = (mesh.data.pointlist[v1] + mesh.data.pointlist[v2] + mesh.data.pointlist[v3]) / 3;
-                Vector r = barycenter - center;
+                // the nodes are stored relative to the center of the drawing
+                Vector r = barycenter + mesh.center - center;
 
                 double K1 = - r.y * 0.5 * myB.normSquared() - myB.x * (r ^ myB);
                 double K2 = r.x * 0.5 * myB.normSquared() - myB.y * (r ^ myB);
@@ -640,7 +641,8 @@ namespace nikfemm {
                 double area = Vector::area(p1, p2, p3);
 
                 Vector barycenter = (p1 + p2 + p3) / 3;
-                Vector r = barycenter - center;
+                // the nodes are stored relative to the center of the drawing
+                Vector r = barycenter + mesh.center - center;
 
                 torque += ((r ^ my_nabla_g) * my_B.normSquared() * 0.5 - (r ^ my_B) * (my_B * my_nabla_g)) * area;
                 // force += (my_nabla_g * 0.5 * my_B.normSquared() - my_B * (my_nabla_g * my_B)) * area;
-- 
2.43.0


From 6178ece7e752a3e090fad9c5e3cdde21a8e74e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:25 +0000
Subject: [PATCH 29/42] fix: force integrals read an uninitialised triangle
 beyond the edge of the mesh

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 7d46327..2b65dd4 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -277,6 +277,9 @@ namespace nikfemm {
                 double len = Vector::distance(v1, v2);
                 Vector n = (v2 - v1).normal().normalize();
                 uint64_t edge = id1 < id2 ? (uint64_t)id1 << 32 | id2 : (uint64_t)id2 << 32 | id1;
+                if (edge_to_triangles[edge].count < 2) {
+                    continue;  // no triangle on the other side
+                }
                 uint32_t adjid1 = edge_to_triangles[edge].elems[0];
                 uint32_t adjid2 = edge_to_triangles[edge].elems[1];
                 Vector Bp = B[adjid1 == i ? adjid2 : adjid1];
-- 
2.43.0


From bccaf2f3b438fd41c1b20a4fb207b74da56028a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:06 +0000
Subject: [PATCH 30/42] fix: force integrals were not a number when the field
 error is the same everywhere

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 2b65dd4..cc83438 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -291,7 +291,7 @@ namespace nikfemm {
         nloginfo("computing median field error");
         // compute min and max field error
         double min_err = std::numeric_limits<double>::max();
-        double max_err = std::numeric_limits<double>::min();
+        double max_err = std::numeric_limits<double>::lowest();
         for (uint32_t i = 0; i < mesh.data.numberoftriangles; i++) {
             min_err = std::min(min_err, elem_field_errors[i]);
             max_err = std::max(max_err, elem_field_errors[i]);
@@ -400,7 +400,7 @@ namespace nikfemm {
 
                 double err = elem_field_errors[adjelems_ids[i][j]];
                 
-                double Wi = limit(map(sqrt(fabs(err)), min_err, max_err, 1, 1000), 1, 1000);
+                double Wi = max_err > min_err ? limit(map(sqrt(fabs(err)), min_err, max_err, 1, 1000), 1, 1000) : 1;
                 // elem_field_weights[adjelems_ids[i][j]] = Wi;
                 
                 if (v1 >= i) coo(i, v1) += area * Wi * (K1 * b1 + K2 * c1) * (K1 * b1 + K2 * c1);
@@ -560,7 +560,7 @@ namespace nikfemm {
 
                 double err = elem_field_errors[adjelems_ids[i][j]];
                 
-                double Wi = limit(map(sqrt(fabs(err)), min_err, max_err, 1, 1000), 1, 1000);
+                double Wi = max_err > min_err ? limit(map(sqrt(fabs(err)), min_err, max_err, 1, 1000), 1, 1000) : 1;
                 // elem_field_weights[adjelems_ids[i][j]] = Wi;
                 
                 if (v1 >= i) coo(i, v1) += area * Wi * (K1 * b1 + K2 * c1) * (K1 * b1 + K2 * c1);
-- 
2.43.0


From a5eed83aefb25e1d1e6414d1af47080c436ba0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:06 +0000
Subject: [PATCH 31/42] fix: force on a body without a field around it was not
 a number

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index cc83438..ee3f3a9 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -438,6 +438,7 @@ namespace nikfemm {
         }
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
             if (is_fixed(i)) b[i] = fixed_value(i);
+            if (coo(i, i) == 0) coo(i, i) = 1;  // the field does not depend on this node
         }
 
         MatCSRSymmetric Ai(coo);
@@ -598,6 +599,7 @@ namespace nikfemm {
         }
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
             if (is_fixed(i)) b[i] = fixed_value(i);
+            if (coo(i, i) == 0) coo(i, i) = 1;  // the field does not depend on this node
         }
 
         MatCSRSymmetric Ai(coo);
-- 
2.43.0


From 78785d45e519c54a5e3ac6f842fbabcf8c5fb5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:49 +0000
Subject: [PATCH 32/42] Revert the change of the field error at the rim of the
 mesh: it only shifts a heuristic weight

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 30 +++++++++++++-------
 lib/nikfemm/src/magnetostatic/simulation.hpp |  1 +
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index ee3f3a9..ca757f9 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -302,6 +302,7 @@ namespace nikfemm {
         std::vector<bool> vertex_inside_integration_region_with_boundary(mesh.data.numberofpoints);
         std::vector<bool> vertex_inside_boundary_region(mesh.data.numberofpoints);
         std::vector<bool> vertex_inside_boundary_region_hole(mesh.data.numberofpoints);
+        std::vector<bool> vertex_outside_of_shell(mesh.data.numberofpoints);
 
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
             Vector mypoint = mesh.data.pointlist[i];
@@ -309,10 +310,15 @@ namespace nikfemm {
             bool inside_integration_region = integration_region.contains(mypoint, false, mesh.epsilon);
             bool inside_boundary_region = boundary_region.contains(mypoint, true, mesh.epsilon);
             bool inside_boundary_region_hole = false;
+            // the auxiliary function vanishes on the border of the shell too, except where it touches the integration region
+            bool outside_of_shell = !boundary_region.contains(mypoint, false, mesh.epsilon);
             for (auto& hole : boundary_region_holes) {
-                if (hole.contains(mypoint, false, mesh.epsilon)) {
-                    inside_boundary_region_hole = true;
-                    break;
+                if (hole.contains(mypoint, true, mesh.epsilon)) {
+                    outside_of_shell = true;
+                    if (hole.contains(mypoint, false, mesh.epsilon)) {
+                        inside_boundary_region_hole = true;
+                        break;
+                    }
                 }
             }
 
@@ -320,6 +326,7 @@ namespace nikfemm {
             vertex_inside_integration_region_with_boundary[i] = inside_integration_region_with_boundary;
             vertex_inside_boundary_region[i] = inside_boundary_region;
             vertex_inside_boundary_region_hole[i] = inside_boundary_region_hole;
+            vertex_outside_of_shell[i] = outside_of_shell && !inside_integration_region_with_boundary;
         }
 
         return SurroundingRegionBlockIntegralAssets{
@@ -331,7 +338,8 @@ namespace nikfemm {
             vertex_inside_integration_region,
             vertex_inside_integration_region_with_boundary,
             vertex_inside_boundary_region,
-            vertex_inside_boundary_region_hole
+            vertex_inside_boundary_region_hole,
+            vertex_outside_of_shell
         };
     }
 
@@ -347,7 +355,8 @@ namespace nikfemm {
             vertex_inside_integration_region,
             vertex_inside_integration_region_with_boundary,
             vertex_inside_boundary_region,
-            vertex_inside_boundary_region_hole
+            vertex_inside_boundary_region_hole,
+            vertex_outside_of_shell
         ] = assets;
 
         auto coo = MatCOOSymmetric<double>(mesh.data.numberofpoints);
@@ -419,10 +428,10 @@ namespace nikfemm {
 
         // the matrix is stored as upper triangular, so every element stands for two equations
         auto is_fixed = [&](uint32_t v) {
-            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] || vertex_inside_integration_region_with_boundary[v];
+            return vertex_outside_of_shell[v] || vertex_inside_integration_region_with_boundary[v];
         };
         auto fixed_value = [&](uint32_t v) {
-            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] ? 0. : 1.;
+            return vertex_outside_of_shell[v] ? 0. : 1.;
         };
         for (auto& [id, value] : coo.elems) {
             uint32_t row = id >> 32;
@@ -507,7 +516,8 @@ namespace nikfemm {
             vertex_inside_integration_region,
             vertex_inside_integration_region_with_boundary,
             vertex_inside_boundary_region,
-            vertex_inside_boundary_region_hole
+            vertex_inside_boundary_region_hole,
+            vertex_outside_of_shell
         ] = assets;
 
         auto coo = MatCOOSymmetric<double>(mesh.data.numberofpoints);
@@ -580,10 +590,10 @@ namespace nikfemm {
 
         // the matrix is stored as upper triangular, so every element stands for two equations
         auto is_fixed = [&](uint32_t v) {
-            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] || vertex_inside_integration_region_with_boundary[v];
+            return vertex_outside_of_shell[v] || vertex_inside_integration_region_with_boundary[v];
         };
         auto fixed_value = [&](uint32_t v) {
-            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] ? 0. : 1.;
+            return vertex_outside_of_shell[v] ? 0. : 1.;
         };
         for (auto& [id, value] : coo.elems) {
             uint32_t row = id >> 32;
diff --git a/lib/nikfemm/src/magnetostatic/simulation.hpp b/lib/nikfemm/src/magnetostatic/simulation.hpp
index c54b626..6879f77 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.hpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.hpp
@@ -28,6 +28,7 @@ namespace nikfemm {
         std::vector<bool> vertex_inside_integration_region_with_boundary;
         std::vector<bool> vertex_inside_boundary_region;
         std::vector<bool> vertex_inside_boundary_region_hole;
+        std::vector<bool> vertex_outside_of_shell;
     };
 
     struct StressTensor {
-- 
2.43.0


From 3c6575c059e2941017b455374c6d6a775c0cf93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:42 +0000
Subject: [PATCH 33/42] fix: small drawings or coarse meshes had no boundary
 polygon around them

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index ca757f9..8469745 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -59,6 +59,10 @@ namespace nikfemm {
         Circle boundary_circle = Circle(Vector(0, 0), smallest_circle.radius * coeff);
         double circumferential_length = boundary_circle.circumference();
         uint32_t boundary_points = (uint32_t)((circumferential_length / sqrt((max_triangle_area * 4) / sqrt(3))) * 2);
+        // the boundary polygon has to enclose the drawing however coarse the mesh is
+        if (boundary_points < 8) {
+            boundary_points = 8;
+        }
         nloginfo("boundary points: %d", boundary_points);
         mesh.drawing.drawCircle(boundary_circle, boundary_points);
         // add region near the edge of the circle
-- 
2.43.0


From 5442c56bf7caeb565f741c46d018ad35ea0a9236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:09 +0000
Subject: [PATCH 34/42] fix: drawings at negative coordinates were plotted off
 the picture's center and scale

---
 lib/nikfemm/src/drawing/drawing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index c80a70b..1dbcb7d 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -437,9 +437,9 @@ namespace nikfemm {
     template <typename Prop>
     void Drawing<Prop>::plotRend(cv::Mat* image, double width, double height) {
         // get mesh enclosing rectangle
-        double max_x = std::numeric_limits<double>::min();
+        double max_x = std::numeric_limits<double>::lowest();
         double min_x = std::numeric_limits<double>::max();
-        double max_y = std::numeric_limits<double>::min();
+        double max_y = std::numeric_limits<double>::lowest();
         double min_y = std::numeric_limits<double>::max();
 
         for (auto p : points) {
-- 
2.43.0


From 99571ea5470f820f7788e73693247a05a0fe7fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:09 +0000
Subject: [PATCH 35/42] fix: plot of a matrix of negative values used a wrong
 colour range

---
 lib/nikfemm/src/algebra/csr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/algebra/csr.cpp b/lib/nikfemm/src/algebra/csr.cpp
index 44f1245..8bacac7 100644
--- a/lib/nikfemm/src/algebra/csr.cpp
+++ b/lib/nikfemm/src/algebra/csr.cpp
@@ -123,7 +123,7 @@ namespace nikfemm {
 
         // find min and max
         double min = std::numeric_limits<double>::max();
-        double max = std::numeric_limits<double>::min();
+        double max = std::numeric_limits<double>::lowest();
 
         for (uint32_t i = 0; i < nnz; i++) {
             if (val[i] < min) {
-- 
2.43.0


From c9cca16631f3e958805f28f9aea2cfdf460a7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:09 +0000
Subject: [PATCH 36/42] fix: node plots crashed, hung or painted garbled cells

---
 lib/nikfemm/src/mesh/mesh.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index d727d1d..f4c8010 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -656,15 +656,20 @@ namespace nikfemm {
                 }
             }
             
+            // a point without triangles has no cell
+            if (points.empty()) {
+                continue;
+            }
+
             // find the center of the points
             cv::Point center = {0, 0};
-            for (uint8_t j = 0; j < points.size(); j++) {
+            for (size_t j = 0; j < points.size(); j++) {
                 center.x += points[j].x;
                 center.y += points[j].y;
             }
             // printf("count: %d\n", points.size());
-            center.x /= points.size();
-            center.y /= points.size();
+            center.x /= (int)points.size();
+            center.y /= (int)points.size();
             // printf("center: %d %d\n", center.x, center.y);
 
             // sort the points by angle
-- 
2.43.0


From bad4cb9d978d70e179ba3760e64607ce8703ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:00 +0000
Subject: [PATCH 37/42] fix: refinement around magnets hung on rotated magnets
 and left edges out

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 1855026..6e15e99 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -129,9 +129,7 @@ namespace nikfemm {
         for (auto region_poly_array : polygons_that_contain_magnet_region) {
             if (region_poly_array.second.size() == 1) {
                 // this is a magnet
-                for (auto point : region_poly_array.second[0].points) {
-                    magnets.push_back(region_poly_array.second[0]);
-                }
+                magnets.push_back(region_poly_array.second[0]);
             } else {
                 // this array contains a magnet and other polygons that contain the polygon that is a magnet
                 // we need to find the polygon that does not contain any other polygon that contains the same region
@@ -150,13 +148,14 @@ namespace nikfemm {
             }
         }
         nloginfo("Found %lu magnets", magnets.size());
+        // the refining points must not shrink the epsilon of the following edges
+        double epsilon = drawing.getCurrentEpsilon();
         for (auto polygon : magnets) {
             for (uint32_t i = 0; i < polygon.points.size(); i++) {
                 Vector p1 = polygon.points[i];
                 Vector p2 = polygon.points[(i + 1) % polygon.points.size()];
                 
                 double multiplier = 10;
-                double epsilon = drawing.getCurrentEpsilon();
                 uint32_t n_points = Vector::distance(p1, p2) / (epsilon / multiplier);
                 // multiply by 1.1 to make sure that the points are far enough to not trigger conformity checks
                 // Vector normal = Vector::normal(p1, p2).versor() * (drawing.epsilon / multiplier) * 1.1;
@@ -183,8 +182,7 @@ namespace nikfemm {
                                     // check if the point is at least drawing.epsilon away from the edge
                                     Vector p3 = other_polygon.points[l];
                                     Vector p4 = other_polygon.points[(l + 1) % other_polygon.points.size()];
-                                    if (Vector::distance(mypoints[k], p3) < epsilon / multiplier ||
-                                        Vector::distance(mypoints[k], p4) < epsilon / multiplier) {
+                                    if (Segment::pointSegmentDistance(mypoints[k], p3, p4) < epsilon / multiplier) {
                                         mypoints_ok[k] = false;
                                         break;
                                     }
-- 
2.43.0


From a832141b5d8d31d8bd92bf1a742a2cd2b70103fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:02 +0000
Subject: [PATCH 38/42] fix: giving a node another fixed value left its
 neighbours at the old one

---
 lib/nikfemm/src/algebra/system.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/algebra/system.hpp b/lib/nikfemm/src/algebra/system.hpp
index 5d22d95..f14dab4 100644
--- a/lib/nikfemm/src/algebra/system.hpp
+++ b/lib/nikfemm/src/algebra/system.hpp
@@ -1,6 +1,10 @@
 #ifndef NIK_SYSTEM_HPP
 #define NIK_SYSTEM_HPP
 
+#include <map>
+#include <utility>
+#include <vector>
+
 #include "../algebra/csr.hpp"
 #include "../algebra/coo.hpp"
 
@@ -10,10 +14,18 @@ namespace nikfemm {
         MatCOOSymmetric<WeightType> A;
         std::vector<WeightType> b;
 
+        // value of every node that has a Dirichlet boundary condition and the elements that were eliminated for it,
+        // needed to give it another value later
+        struct DirichletCondition {
+            double value = 0;
+            std::vector<std::pair<uint32_t, WeightType>> eliminated;
+        };
+        std::map<uint32_t, DirichletCondition> dirichlet_conditions;
+
         // constructor
         System(uint32_t m) : A(m), b(m) {}
         System(MatCOOSymmetric<WeightType> A, std::vector<double> b) : A(A), b(b) {}
-        System(System<WeightType> const& other) : A(other.A), b(other.b) {}
+        System(System<WeightType> const& other) : A(other.A), b(other.b), dirichlet_conditions(other.dirichlet_conditions) {}
 
         void addDirichletBoundaryCondition(uint32_t id, double value) {
             // https://community.freefem.org/t/implementation-of-dirichlet-boundary-condition-when-tgv-1/113
@@ -24,6 +36,14 @@ namespace nikfemm {
             // by the value of the boundary condition is subtracted from the corresponding element in the b vector
             // care must be taken because the matrix is symmetric but it is stored as upper triangular to save memory
 
+            // a node that already has a value gets the new one: move the share of its eliminated elements in the b vector
+            DirichletCondition& condition = dirichlet_conditions[id];
+            for (auto& [row, weight] : condition.eliminated) {
+                if (dirichlet_conditions.count(row)) continue;
+                b[row] -= weight * (value - condition.value);
+            }
+            condition.value = value;
+
             for (auto& elem : A.elems) {
                 uint32_t m = elem.first >> 32;
                 uint32_t n = elem.first & 0xFFFFFFFF;
@@ -33,10 +53,12 @@ namespace nikfemm {
 
                 if (m == id) { // row index equal to id
                     b[n] -= elem.second * value;
+                    condition.eliminated.push_back({n, elem.second});
                     elem.second = 0;
                 }
                 if (n == id) { // column index equal to id
                     b[m] -= elem.second * value;
+                    condition.eliminated.push_back({m, elem.second});
                     elem.second = 0;
                 }
             }
-- 
2.43.0


From ca9c4ee672e8b3712a2bc85dffce2815b80d0c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:59 +0000
Subject: [PATCH 39/42] fix: a point on an edge made the refinement collapse

---
 lib/nikfemm/src/drawing/drawing.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 1dbcb7d..b459d3c 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -282,6 +282,10 @@ namespace nikfemm {
                     continue;
                 }
                 double dist = Segment::pointSegmentDistance(point, points[segment.p1], points[segment.p2]);
+                // the segment contains the point without ending there
+                if (dist < EPSILON) {
+                    continue;
+                }
                 if (dist < min_dist) {
                     min_dist = dist;
                 }
-- 
2.43.0


From e8ced887b091826330e926e39270aef8b9f16363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:53 +0000
Subject: [PATCH 40/42] fix: nonlinear iterations stopped before the
 permeability had reached its curve

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 8469745..eac25e2 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -152,7 +152,12 @@ namespace nikfemm {
                 mult(r, FemMat, A);
                 sub(r, b, r);
                 residual = norm(r);
-                if (residual < 1e-7) {
+                // the permeability lags behind the curve while it is relaxed: the balance only counts once it has arrived
+                bool converged = residual < 1e-7;
+                for (uint32_t j = 0; j < mu.size() && converged; j++) {
+                    converged = fabs(mu[j] - props[j]->getMu(B[j].norm())) <= 1e-6 * mu[j];
+                }
+                if (converged) {
                     nloginfo("Converged in %d iterations", i);
                     break;
                 }
-- 
2.43.0


From 16a574dcd608157c43aa87033ffb3eb6d1a3562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:47 +0000
Subject: [PATCH 41/42] fix: Python calls crashed on points that are not two
 numbers

---
 python/nikfemm.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 4c193f2..9fe07a8 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -269,7 +269,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
             PyErr_SetString(PyExc_TypeError, "setVoltage must have the first argument of type System");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 1)) != 2) {
             PyErr_SetString(PyExc_TypeError, "setVoltage must have the second argument of type [double, double]");
             return NULL;
         }
@@ -323,11 +323,11 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
         PyErr_SetString(PyExc_TypeError, "add_interconnection must have 5 arguments: [double, double], [double, double], uint64_t, uint64_t, double");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 0)) != 2) {
             PyErr_SetString(PyExc_TypeError, "add_interconnection must have the first argument of type [double, double] or [int, int]");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 1)) != 2) {
             PyErr_SetString(PyExc_TypeError, "add_interconnection must have the second argument of type [double, double] or [int, int]");
             return NULL;
         }
@@ -391,11 +391,11 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
         PyErr_SetString(PyExc_TypeError, "drawRectangle must have 3 arguments: (double, double), (double, double), uint64_t");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 0)) != 2) {
             PyErr_SetString(PyExc_TypeError, "drawRectangle must have the first argument of type (double, double)");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 1)) != 2) {
             PyErr_SetString(PyExc_TypeError, "drawRectangle must have the second argument of type (double, double)");
             return NULL;
         }
@@ -439,7 +439,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
         PyErr_SetString(PyExc_TypeError, "drawRegion must have 3 arguments: (double, double), double, uint64_t");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 0)) != 2) {
             PyErr_SetString(PyExc_TypeError, "drawRegion must have the first argument of type (double, double)");
             return NULL;
         }
-- 
2.43.0


From 649236b5a84c91a0c58ba2f26dec51388ebf90d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:47 +0000
Subject: [PATCH 42/42] fix: Python calls wrote outside the layers when given a
 layer that does not exist

---
 python/nikfemm.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 9fe07a8..f4366ce 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -308,6 +308,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
         return NULL;
     }
     uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
+    if (PyErr_Occurred() || layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer out of range");
+        return NULL;
+    }
 
     self->simulation->setVoltage(*system, p, V, layer_id);
 
@@ -366,6 +370,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
     uint64_t layer1_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
     uint64_t layer2_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
+    if (PyErr_Occurred() || layer1_id >= self->simulation->meshes.size() || layer2_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer out of range");
+        return NULL;
+    }
     double R;
     if (PyFloat_Check(PyTuple_GetItem(args, 4))) {
         R = PyFloat_AsDouble(PyTuple_GetItem(args, 4));
@@ -424,6 +432,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
     nikfemm::Vector p1 = nikfemm::Vector(coords[0][0], coords[0][1]);
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
     uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    if (PyErr_Occurred() || layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer out of range");
+        return NULL;
+    }
 
     // draw rectangle
     self->simulation->meshes[layer_id].drawing.drawRectangle(p1, p2);
@@ -470,6 +482,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
     nikfemm::Vector p = nikfemm::Vector(coords[0], coords[1]);
     double material = PyFloat_AsDouble(PyTuple_GetItem(args, 1));
     uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    if (PyErr_Occurred() || layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer out of range");
+        return NULL;
+    }
 
     // draw region
     self->simulation->meshes[layer_id].drawing.drawRegion(p, {material});
@@ -523,6 +539,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
         points.push_back(nikfemm::Vector(coords[0], coords[1]));
     }
     uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 1));
+    if (PyErr_Occurred() || layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer out of range");
+        return NULL;
+    }
 
     // draw polygon
     self->simulation->meshes[layer_id].drawing.drawPolygon(points);
-- 
2.43.0

