From a4bba4b09ba5cef28ffb5292991c05b5e2acaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 01/57] fix: is_between accepts points far off the segment

---
 utils/cg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index bb7525d..9b3016e 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -67,7 +67,10 @@ def is_ccw(a, b, c):
 # TODO: Use [NOT is_cw and NOT is_ccw] instead?
 # Returns true if point b is between point and b
 def is_between(a, b, c):
-    return np.isclose(np.linalg.norm(a-b) + np.linalg.norm(c-b), np.linalg.norm(a-c), rtol=1e-7)
+    ab, ac = b - a, c - a
+    ac_sq = np.dot(ac, ac)
+    t = min(max(np.dot(ab, ac) / ac_sq, 0), 1) if ac_sq > 0 else 0
+    return bool(np.linalg.norm(ab - t * ac) < 1e-8)
 
 
 def intersect(a1, a2, b1, b2):
-- 
2.43.0


From f7de64d22065b5458902f24909214e076f8dd378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 02/57] fix: Line.intersects never reports an intersection

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index 9b3016e..54a4f63 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -125,7 +125,7 @@ class Line:
         return Point(ip_x, ip_y)
 
     def intersects(self, other):
-        return (is_ccw(self.p1, other.p1, other.p1) != is_ccw(self.p2, other.p1, other.p1) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
+        return (is_ccw(self.p1, other.p1, other.p2) != is_ccw(self.p2, other.p1, other.p2) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
 
 
 class LineSegment(Line):
-- 
2.43.0


From 7d75bbf4994d98b0963cc339b6938cc6030f1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 03/57] fix: equilateral_triangle rotates about the origin
 instead of the centroid

---
 utils/cg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 54a4f63..5c6bd4a 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -207,13 +207,13 @@ def get_intersection(a1, a2, b1, b2):
 
 
 def equilateral_triangle(centroid, side_length, rot=0):
-    triangle = np.array(centroid) + np.array([[0, 1 / np.sqrt(3) * side_length],
-                                               [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
-                                               [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
+    triangle = np.array([[0, 1 / np.sqrt(3) * side_length],
+                         [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
+                         [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
     if not rot:
-        return triangle
+        return np.array(centroid) + triangle
     c,s = np.cos(rot), np.sin(rot)
-    return np.array([[c * triangle[0, 0] - s * triangle[0, 1], s * triangle[0, 0] + c * triangle[0, 1]],
+    return np.array(centroid) + np.array([[c * triangle[0, 0] - s * triangle[0, 1], s * triangle[0, 0] + c * triangle[0, 1]],
                      [c * triangle[1, 0] - s * triangle[1, 1], s * triangle[1, 0] + c * triangle[1, 1]],
                      [c * triangle[2, 0] - s * triangle[2, 1], s * triangle[2, 0] + c * triangle[2, 1]]])
 
-- 
2.43.0


From 1a1489d184f7c8c0b5ef701e2075df06ce8f51bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 04/57] fix: generate_convex_polygon ignores the box height

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index 5c6bd4a..34bc915 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -427,7 +427,7 @@ def generate_convex_polygon(n, box=None):
 
     # Generate two lists of random X and Y coordinates
     xPool = [box[0]*np.random.uniform() for i in range(n)]
-    yPool = [box[0]*np.random.uniform() for i in range(n)]
+    yPool = [box[1]*np.random.uniform() for i in range(n)]
 
     # Sort them
     xPool = np.sort(xPool)
-- 
2.43.0


From dcd94d85ed61e21c6cb0a381ce3187f8c09776e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 05/57] fix: convex_hull does not terminate on collinear or
 repeated points

---
 utils/cg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 34bc915..0069661 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -256,6 +256,11 @@ def convex_hull(points):
             # than current q, then update q
             if is_ccw(points[p], points[i], points[q]):
                 q = i
+            # Of collinear points, the one farthest away is on the hull
+            elif is_collinear(points[p], points[i], points[q]) and \
+                    np.hypot(points[i][0] - points[p][0], points[i][1] - points[p][1]) > \
+                    np.hypot(points[q][0] - points[p][0], points[q][1] - points[p][1]):
+                q = i
         '''
         Now q is the most counterclockwise with respect to p
         Set p as q for next iteration, so that q is added to
@@ -263,8 +268,8 @@ def convex_hull(points):
         '''
         p = q
 
-        # While we don't come to first point
-        if (p == l):
+        # While we don't come to a point already on the hull
+        if [points[p][0], points[p][1]] in hull:
             break
 
     return hull
-- 
2.43.0


From 8d4fef749fe8a8bd92d4c8e9763223d02a5fec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 06/57] fix: Frame.InvalidFrameError is an enum member and
 cannot be raised

---
 obstacles/obstacle.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/obstacles/obstacle.py b/obstacles/obstacle.py
index 7789611..0b41211 100644
--- a/obstacles/obstacle.py
+++ b/obstacles/obstacle.py
@@ -7,12 +7,16 @@ from copy import deepcopy
 from enum import Enum
 
 
+class InvalidFrameError(Exception):
+    pass
+
+
 class Frame(Enum):
     GLOBAL = 1
     OBSTACLE = 2
 
-    class InvalidFrameError(Exception):
-        pass
+
+Frame.InvalidFrameError = InvalidFrameError
 
 
 class Obstacle(ABC):
-- 
2.43.0


From 0e63ab43f1582f399b2e4006667002a515bd55f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 07/57] fix: set_pos keeps a reference to the caller's position

---
 obstacles/motion_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index 64e4746..74c463a 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -18,7 +18,7 @@ class MotionModel(ABC):
         self._t += dt
 
     def set_pos(self, pos):
-        self._pos = pos
+        self._pos = np.array(pos, dtype='float64')
 
     def set_rot(self, rot):
         self._rot = rot
-- 
2.43.0


From a4bf8154412154042fb531ee9c15f2e8a824f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 08/57] fix: Interval velocity at exactly the last time point

---
 obstacles/motion_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index 74c463a..fe7521d 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -82,7 +82,7 @@ class Interval(MotionModel):
         super().__init__(init_pos, 0)
 
     def lin_vel(self):
-        if self._t > self.time_point[-1]:
+        if self._t >= self.time_point[-1]:
             vel_norm = np.linalg.norm((self.pos_point[-1] - self.pos_point[-2]) / (self.time_point[-1] - self.time_point[-2]))
             dir = self.pos_point[-1] - self.pos()
             if np.linalg.norm(dir) > vel_norm:
-- 
2.43.0


From 48f86f7a47a62ce1684a7d1019df3c7b8ad8fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 09/57] fix: boundary points on the bounding box classified as
 exterior

---
 obstacles/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index d8ec63a..0efa34b 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -61,7 +61,7 @@ class Polygon(Obstacle):
     def point_location(self, x, input_frame=Frame.GLOBAL):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
         xmin, ymin, xmax, ymax = self._pol_bounds
-        if not (xmin < x_obstacle[0] < xmax and ymin < x_obstacle[1] < ymax):
+        if not (xmin <= x_obstacle[0] <= xmax and ymin <= x_obstacle[1] <= ymax):
             return 1
         x_sh = shapely.geometry.Point(x_obstacle)
         if self._polygon.contains(x_sh):
-- 
2.43.0


From 65a13775f1201193f6794b7a876f749f77bbf400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 10/57] fix: Polygon.line_intersection fails when the line
 touches points and edges

---
 obstacles/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 0efa34b..94d0f25 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -85,7 +85,7 @@ class Polygon(Obstacle):
         elif intersection_points_shapely.geom_type == 'MultiLineString':
             intersection_points_obstacle = [np.array([ip[0], ip[1]]) for line in intersection_points_shapely.geoms for ip in line.coords]
         else:
-            print(intersection_points_shapely)
+            intersection_points_obstacle = [np.array([ip[0], ip[1]]) for g in intersection_points_shapely.geoms for ip in g.coords]
         return [self.transform(ip, Frame.OBSTACLE, output_frame) for ip in intersection_points_obstacle]
 
     def tangent_points(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
-- 
2.43.0


From 8487ff6a5e1ab740257592f21ad970a1ac5a87c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 11/57] fix: Ellipse.line_intersection wrong for (near)
 vertical lines

---
 obstacles/ellipse.py | 68 +++++++++-----------------------------------
 1 file changed, 13 insertions(+), 55 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 17f216e..d3b7805 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -99,66 +99,24 @@ class Ellipse(StarshapedObstacle):
         l_left_obstacle = l0_obstacle if l0_obstacle[0] < l1_obstacle[0] else l1_obstacle
         l_right_obstacle = l1_obstacle if l0_obstacle[0] < l1_obstacle[0] else l0_obstacle
 
+        # Ellipse equation for points l_left + s * (l_right - l_left): k2*s^2 + 2*k1*s + k0 = 0
+        p, d = l_left_obstacle / self._a, (l_right_obstacle - l_left_obstacle) / self._a
+        k2, k1, k0 = d.dot(d), p.dot(d), p.dot(p) - 1
+        if k2 == 0:
+            return []
 
-        vertical_line = abs(l_right_obstacle[0]-l_left_obstacle[0]) < 1e-4
-        if not vertical_line:
-            # Line parameters
-            m = (l_right_obstacle[1] - l_left_obstacle[1]) / (l_right_obstacle[0] - l_left_obstacle[0])
-            c = l_left_obstacle[1] - m * l_left_obstacle[0]
-            vertical_line = abs(m) > 100
-
-        # Special case with vertical line
-        if vertical_line:
-            if l_right_obstacle[0] < -self._a[0] or l_right_obstacle[0] > self._a[0]:
-                return []
-
-            l_top_obstacle = l_right_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_left_obstacle
-            l_bottom_obstacle = l_left_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_right_obstacle
-            x_intersect_top_obstacle, x_intersect_bottom_obstacle = np.array([0, self._a[1]]), np.array([0, -self._a[1]])
-            x_intersect_top = self.transform(x_intersect_top_obstacle, Frame.OBSTACLE, output_frame)
-            x_intersect_bottom = self.transform(x_intersect_bottom_obstacle, Frame.OBSTACLE, output_frame)
-            if l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_top, x_intersect_bottom]
-            elif l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= self._a[1]:
-                return [x_intersect_top]
-            elif l_top_obstacle[1] >= -self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_bottom]
-            else:
-                return []
-
-        # obstacle ellipse coefficients at intersection with line m*x+c
-        kx2 = self._a2[0] * m**2 + self._a2[1]
-        kx = 2 * self._a2[0] * m * c
-        k1 = self._a2[0] * (c**2 - self._a2[1])
-
-        # TODO: Stable fix for finding intersection
-        discriminant = self._a2[0] * m**2 + self._a2[1] - c**2
+        discriminant = k2 - (p[0] * d[1] - p[1] * d[0]) ** 2  # = k1^2 - k2*k0
         if discriminant < 0:
             return []
         elif discriminant == 0:
-            tmp_x = -kx / (2 * kx2)
-            x_intersect_obstacle = np.array([tmp_x, m * tmp_x + c])
-            return [self.transform(x_intersect_obstacle, Frame.OBSTACLE, output_frame)]
+            s_intersect = [-k1 / k2]
         else:
-            in_sqrt = kx ** 2 / (4 * kx2 ** 2) - k1 / kx2
-            if np.isclose(in_sqrt, 0):
-                in_sqrt = 0
-            tmp_x = -kx / (2 * kx2) - np.sqrt(in_sqrt)
-            x_intersect_left_obstacle = np.array([tmp_x, m * tmp_x + c])
-            tmp_x = -kx / (2 * kx2) + np.sqrt(in_sqrt)
-            x_intersect_right_obstacle = np.array([tmp_x, m * tmp_x + c])
-            x_intersect_left = self.transform(x_intersect_left_obstacle, Frame.OBSTACLE, output_frame)
-            x_intersect_right = self.transform(x_intersect_right_obstacle, Frame.OBSTACLE, output_frame)
-
-            if l_right_obstacle[0] < x_intersect_left_obstacle[0] or x_intersect_right_obstacle[0] < l_left_obstacle[0] or \
-                    x_intersect_left_obstacle[0] < l_left_obstacle[0] < l_right_obstacle[0] < x_intersect_right_obstacle[0]:
-                return []
-            elif x_intersect_left_obstacle[0] < l_left_obstacle[0]:
-                return [x_intersect_right]
-            elif l_right_obstacle[0] < x_intersect_right_obstacle[0]:
-                return [x_intersect_left]
-            else:
-                return [x_intersect_left, x_intersect_right]
+            # Avoid cancellation in the numerator
+            q = -k1 - np.sqrt(discriminant) if k1 > 0 else -k1 + np.sqrt(discriminant)
+            s_intersect = sorted([q / k2, k0 / q])
+
+        return [self.transform(l_left_obstacle + s * (l_right_obstacle - l_left_obstacle), Frame.OBSTACLE, output_frame)
+                for s in s_intersect if 0 <= s <= 1]
 
     def tangent_points(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
-- 
2.43.0


From 26a21c2803da6131ff96a97950dfef9a7b277764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 12/57] fix: Ellipse.kernel fails when the polygon is not
 computed yet

---
 obstacles/ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index d3b7805..9e510f3 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -165,7 +165,7 @@ class Ellipse(StarshapedObstacle):
         self._is_convex = True
 
     def _compute_kernel(self):
-        self._kernel = self._polygon
+        self._kernel = self.polygon(Frame.OBSTACLE)
 
     def _compute_polygon_representation(self):
         # logprint(str(self) + ": " + str(self._polygon), 0)
-- 
2.43.0


From 69d9106ea437691aba7b8d8eb1f904595c8d8dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 13/57] fix: Ellipse has no area

---
 obstacles/ellipse.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 9e510f3..a7c034c 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -11,7 +11,6 @@ class Ellipse(StarshapedObstacle):
         self._a = np.array(a, float)
         self._a2 = np.square(self._a)
         self._n_pol = n_pol
-        # self._area = np.pi * self._a[0] * self._a[1]
         if xr is None:
             xr = np.zeros(2)
         super().__init__(xr=xr, **kwargs)
@@ -157,8 +156,8 @@ class Ellipse(StarshapedObstacle):
 
         return [tp1, tp2]
 
-    # def area(self):
-    #     return self._area
+    def area(self):
+        return np.pi * self._a[0] * self._a[1]
 
     # ------------ Private methods ------------ #
     def _check_convexity(self):
-- 
2.43.0


From 4e77aa984303940b7337d0423d127186bde04fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 14/57] fix: Ellipse.tangent_points order mixes input and
 output frame

---
 obstacles/ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index a7c034c..587b793 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -151,7 +151,7 @@ class Ellipse(StarshapedObstacle):
         tp1 = self.transform(tp1_obstacle, Frame.OBSTACLE, output_frame)
         tp2 = self.transform(tp2_obstacle, Frame.OBSTACLE, output_frame)
 
-        if is_ccw(x, tp1, tp2):
+        if is_ccw(x_obstacle, tp1_obstacle, tp2_obstacle):
             tp1, tp2 = tp2, tp1
 
         return [tp1, tp2]
-- 
2.43.0


From a92c402e1a6857c4f3b1ef658b2c032577275be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 15/57] fix: set_xr with safe_set raises AttributeError

---
 obstacles/starshaped_obstacle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index 122ab8f..83f766b 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod
 import numpy as np
+import shapely
 from obstacles import Obstacle, Frame
 from shapely import affinity as sh_affinity
 
@@ -19,8 +20,8 @@ class StarshapedObstacle(Obstacle):
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
         new_xr = self.transform(xr, input_frame, Frame.OBSTACLE)
         if safe_set:
-            k = self.kernel()
-            if not k.exterior_point(new_xr, Frame.OBSTACLE):
+            k = self.kernel(Frame.OBSTACLE)
+            if k.covers(shapely.geometry.Point(new_xr)):
                 self._xr = new_xr
         else:
             self._xr = new_xr
-- 
2.43.0


From cb0df5eb22c29a91c6b02a182769629b58412f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 16/57] fix: set_xr keeps a reference to the caller's reference
 point

---
 obstacles/starshaped_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index 83f766b..4e88359 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -18,7 +18,7 @@ class StarshapedObstacle(Obstacle):
         return self.transform(self._xr, Frame.OBSTACLE, output_frame)
 
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
-        new_xr = self.transform(xr, input_frame, Frame.OBSTACLE)
+        new_xr = np.array(self.transform(xr, input_frame, Frame.OBSTACLE), dtype='float64')
         if safe_set:
             k = self.kernel(Frame.OBSTACLE)
             if k.covers(shapely.geometry.Point(new_xr)):
-- 
2.43.0


From f0ca8f8829d1cd395b544ad3f08cd4738cdca937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 17/57] fix: boundary mapping ray too short for dilated
 StarshapedPolygon

---
 obstacles/starshaped_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 85eba3c..0820a78 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -31,7 +31,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         cp = self.copy(id, name)
         cp._polygon = cp._polygon.buffer(padding, cap_style=1, join_style=1)
         cp._pol_bounds = cp._polygon.bounds
-        cp.enclosing_ball_diameter = max(cp._polygon.bounds[2]-cp._polygon.bounds[0], cp._polygon.bounds[3]-cp._polygon.bounds[1])
+        cp.enclosing_ball_diameter = cp._polygon.bounds[2]-cp._polygon.bounds[0] + cp._polygon.bounds[3]-cp._polygon.bounds[1]
         cp.vertices = np.array(cp._polygon.exterior.coords[:-1])
         cp.circular_vertices = np.array(cp._polygon.exterior.coords)
         cp._polygon_global_pose = None
-- 
2.43.0


From 8f28927d1e9501c2b967f37658b9f9fccd2b52a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 18/57] fix: weighted_edges normal of StarshapedPolygon is not
 a unit vector

---
 obstacles/starshaped_polygon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 0820a78..d8c990a 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -87,6 +87,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
             w = np.array([1/(d+1e-6) for d in dist])
             w /= sum(w)
             n_obstacle = edge_neighbors_normal.T.dot(w)
+            n_obstacle /= np.linalg.norm(n_obstacle)
         return self.rotate(n_obstacle, Frame.OBSTACLE, output_frame)
 
 
-- 
2.43.0


From 41b35de81b74bd6a0f28be443cacad9105986bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 19/57] fix: StarshapedPrimitiveCombination vertices fail when
 polygon is not computed yet

---
 obstacles/starshaped_primitive_combination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 6fdf2cd..e9c717b 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -210,8 +210,8 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             print(intersection_points_shapely)
 
     def _update_vertex_angles(self):
-        self.vertices = np.array(self._polygon.exterior.coords[:-1])
-        self.circular_vertices = np.array(self._polygon.exterior.coords)
+        self.vertices = np.array(self.polygon().exterior.coords[:-1])
+        self.circular_vertices = np.array(self.polygon().exterior.coords)
         self.vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
         idcs = np.argsort(self.vertex_angles)
         self.vertex_angles = self.vertex_angles[idcs]
-- 
2.43.0


From 6aac659aaf064052b5bd5ac2115115fe3a26468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 20/57] fix: StarshapedPrimitiveCombination boundary ray does
 not reach the boundary for points close to xr

---
 obstacles/starshaped_primitive_combination.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index e9c717b..a8f06ca 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -62,7 +62,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
 
     def boundary_mapping(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
         # intersection_points = [p for ps in self.line_intersection([self._xr, self._xr+10*(x-self._xr)]) for p in ps]
-        intersection_points = self.line_intersection([self._xr, self._xr+10*(x-self._xr)])
+        intersection_points = self.line_intersection(self._boundary_ray(x))
         if not intersection_points:
             return None
         dist_intersection_points = [np.linalg.norm(ip - self._xr) for ip in intersection_points]
@@ -84,7 +84,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         if type == 'sub_normal':
             boundary_obs_idx = 0
             max_dist = -1
-            line = [self._xr, self._xr+10*(x-self._xr)]
+            line = self._boundary_ray(x)
             for i, o in enumerate(self._obstacle_cluster):
                 intersection_points = o.line_intersection(line, Frame.GLOBAL, Frame.GLOBAL)
                 for p in intersection_points:
@@ -179,6 +179,11 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         self.update_plot(line_handles)
         return line_handles, ax
 
+    # Line segment from xr, in direction of x, to outside the obstacle
+    def _boundary_ray(self, x):
+        xmin, ymin, xmax, ymax = self.polygon().bounds
+        return [self._xr, self._xr + 1.1 * (xmax - xmin + ymax - ymin) * self.reference_direction(x)]
+
     def _hull_cluster_point_location(self, x):
         if self._hull_cluster is None:
             return 1
-- 
2.43.0


From a17e0c6fb0350586e250d4d97ece598e147aad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 21/57] fix: StarshapedPrimitiveCombination.vel_intertial_frame
 picks obstacle from point coordinates

---
 obstacles/starshaped_primitive_combination.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index a8f06ca..ae3ee74 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -71,13 +71,13 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
     def vel_intertial_frame(self, x):
         boundary_obs_idx = 0
         max_dist = -1
-        for i, ps in enumerate(self.line_intersection([self._xr, self._xr+10*(x-self._xr)])):
+        line = self._boundary_ray(x)
+        for i, o in enumerate(self._obstacle_cluster):
+            ps = o.line_intersection(line, Frame.GLOBAL, Frame.GLOBAL)
             o_intersection_dist = max([np.linalg.norm(p-self._xr) for p in ps] + [-1])
             if o_intersection_dist > max_dist:
                 boundary_obs_idx = i
                 max_dist = o_intersection_dist
-        if boundary_obs_idx >= len(self._obstacle_cluster):
-            boundary_obs_idx -= len(self._obstacle_cluster)
         return self._obstacle_cluster[boundary_obs_idx].vel_intertial_frame(x)
 
     def normal(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL, x_is_boundary=False, type='weigthed_polygon_approx'):
-- 
2.43.0


From db5361d0011578b2301ae69badd3827fd1ba74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 22/57] fix: hull line intersections fail when the line touches
 points and edges

---
 obstacles/starshaped_primitive_combination.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index ae3ee74..434068f 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -211,8 +211,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             return [np.array([l[0], l[1]]) for line in intersection_points_shapely.geoms for
                                             l in line.coords]
         else:
-            print("[_hull_cluster_line_intersections]: Shapely geom_type not covered!")
-            print(intersection_points_shapely)
+            return [np.array([l[0], l[1]]) for g in intersection_points_shapely.geoms for l in g.coords]
 
     def _update_vertex_angles(self):
         self.vertices = np.array(self.polygon().exterior.coords[:-1])
-- 
2.43.0


From 4b51efb1c00433fe52e3a816887ab51902a92cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 23/57] fix: kernel of StarshapedPolygon wrong or invalid for
 many polygons

---
 obstacles/starshaped_polygon.py | 705 ++------------------------------
 1 file changed, 26 insertions(+), 679 deletions(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index d8c990a..f373ba9 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -2,7 +2,6 @@ from obstacles import Frame, StarshapedObstacle, Polygon
 import matplotlib.pyplot as plt
 import numpy as np
 import shapely
-from utils import is_cw, is_ccw, is_collinear, orientation_val, get_intersection, is_between, tic, toc
 
 
 class StarshapedPolygon(Polygon, StarshapedObstacle):
@@ -183,685 +182,33 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         self.circular_vertices = np.vstack((self.vertices, self.vertices[0, :]))
         self.vertex_angles = np.hstack((self.vertex_angles, self.vertex_angles[0] + 2 * np.pi))
 
-    def _compute_kernel(self, verbose=False, debug=False):
+    def _compute_kernel(self):
         if self.is_convex():
             self._kernel = self._polygon
             return
 
-        # Returns true if vertex v[i, :] is reflex
-        def is_reflex(i):
-            return is_cw(v[i - 1, :], v[i, :], v[(i + 1) % v.shape[0], :])
-
-        # Show polygon
-        def draw(xk, F1_idx, L1_idx, i, xk_bounded):
-            v_ext = np.vstack((v, v[0, :]))
-            xk_ext = np.vstack((xk, xk[0, :])) if xk_bounded else xk
-            plt.plot(v_ext[:, 0], v_ext[:, 1], label='v', marker='.')
-            # plt.plot(v_ext[:, 0], v_ext[:, 1], label='v')
-            # plt.text(v_ext[0, 0], v_ext[0, 1], 'v0')
-            plt.text(xk[0, 0], xk[0, 1], 'xk0')
-            axes = plt.gca()
-            xlim, ylim = axes.get_xlim(), axes.get_ylim()
-            plt.plot(xk_ext[:, 0], xk_ext[:, 1], label='xk')
-            plt.plot(xk[F1_idx, 0], xk[F1_idx, 1], marker='o', c='c', label='F1')
-            end_point = v[i, :] + INF_VAL * (xk[F1_idx, :] - v[i, :]) / np.linalg.norm(xk[F1_idx, :] - v[i, :])
-            plt.plot([v[i, 0], end_point[0]], [v[i, 1], end_point[1]], 'c--')
-            plt.plot(xk[L1_idx, 0], xk[L1_idx, 1], marker='o', c='b', label='L1')
-            end_point = v[i, :] + INF_VAL * (xk[L1_idx, :] - v[i, :]) / np.linalg.norm(xk[L1_idx, :] - v[i, :])
-            plt.plot([v[i, 0], end_point[0]], [v[i, 1], end_point[1]], 'b--')
-            plt.plot(v[i, 0], v[i, 1], marker='x', c='r', ms=12, label='v{}'.format(i))
-            axes.set_xlim(xlim)
-            axes.set_ylim(ylim)
-
-        def point_left_of_line(point, line_head, line_tail):
-            return is_ccw(line_head, line_tail, point)
-
-        def point_right_of_line(point, line_head, line_tail):
-            return is_cw(line_head, line_tail, point)
-
-        pol = shapely.ops.orient(self._polygon)
-        v = np.asarray(pol.exterior.coords)[:-1, :]
-
-        # Remove points in line
-        v_idcs = np.arange(v.shape[0])
-        for i in range(v.shape[0]):
-            if is_collinear(v[v_idcs[i - 2], :], v[v_idcs[i - 1], :], v[v_idcs[i], :]):
-                v_idcs[i - 1] = v_idcs[i - 2]
-        v_idcs = np.unique(v_idcs)
-        v = v[v_idcs, :]
-        if is_collinear(v[-2, :], v[-1, :], v[0, :]):
-            v = v[:-1]
-
-        N = v.shape[0]
-        for i in range(N):
-            # Order v to have v[:, 0] as reflex vertex
-            if is_reflex(i):
-                v = np.vstack((v[i:, :], v[:i, :]))
-                break
-
-        INF_VAL = 300.
-        # Initial step
-        F1 = v[0, :] + INF_VAL * (v[0, :] - v[1, :]) / np.linalg.norm(v[0, :] - v[1, :])
-        L1 = v[0, :] + INF_VAL * (v[0, :] - v[-1, :]) / np.linalg.norm(v[0, :] - v[-1, :])
-        xk = np.vstack((F1, v[0, :], L1))
-        F1_idx = 0  # Index of point F1 in xk
-        L1_idx = 2  # Index of point L1 in xk
-        xk_bounded = False
-
-        if verbose:
-            print("------")
-            print(0)
-            print("F1:", end=" ")
-            print(F1)
-            print("L1:", end=" ")
-            print(L1)
-        if debug:
-            draw(xk, F1_idx, L1_idx, 0, xk_bounded)
-            plt.show()
-
-        for i in range(1, N):
-
-            if verbose:
-                print("------")
-                print(i)
-                print("F1 index: {}".format(F1_idx))
-                print("L1 index: {}".format(L1_idx))
-
-            L1 = xk[L1_idx, :]
-            F1 = xk[F1_idx, :]
-            vi = v[i, :]
-            vi_1 = v[(i + 1) % N, :]
-
-            # (1) vi is reflex
-            if is_reflex(i):
-                # (1.2) F1 lies to the left of line ->(vi->vi+1)->vi+1
-                start_point = vi - INF_VAL * (vi_1 - vi) / np.linalg.norm(vi_1 - vi)
-                if point_left_of_line(F1, start_point, vi_1):
-                    case = 2
-                    if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                 label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                        plt.title("F1 lies to the left of line ->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                        plt.show()
-                    if verbose:
-                        print("(1.2) - F1 ({},{}) lies to the left of line ->(v{}->v{})->v{}".format(F1[0], F1[0], i,
-                                                                                                     i + 1, i + 1))
-                # (1.1) F1 lies on or to the right of line ->(vi->vi+1)->vi+1
-                else:
-                    case = 1
-                    if verbose:
-                        print(
-                            "(1.1) - F1 ({},{}) lies on or to the right of line ->(v{}->v{})->v{}".format(F1[0], F1[0],
-                                                                                                          i, i + 1,
-                                                                                                          i + 1))
-                        print("Scan xk ccw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                   i + 1,
-                                                                                                                   i + 1))
-                    # Scan xk ccw from F1 to L1 until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                    w1 = None
-                    idx_offsets = range(1, xk.shape[0] + 1)
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        if not xk_bounded and t == 0:
-                            break
-                        # Get intersection w1 of current edge and line ->(vi->vi+1)->vi+1
-                        wt_prev = xk[t - 1, :]
-                        wt = xk[t, :]
-                        w1 = get_intersection(wt_prev, wt, start_point, vi_1)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w1 is None else 'g'
-                            plt.plot([wt_prev[0], wt[0]], [wt_prev[1], wt[1]], marker='*', color=col, label="edge")
-                            plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                     label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                            plt.title(
-                                "Scan xk ccw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                     i + 1,
-                                                                                                                     i + 1))
-                        if w1 is not None:
-                            if debug:
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.legend()
-                                plt.show()
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-
-                        if t == L1_idx:
-                            break
-                    # If no intersecting line is reached no kernel exists
-                    if w1 is None:
-                        # if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.title('No kernel found.. Polygon not starshaped.')
-                        plt.legend()
-                        plt.show()
-                        return False
-                    if verbose:
-                        print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w1[0], w1[1], i, i + 1,
-                                                                                            i + 1))
-                        print("Scan xk cw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                  i + 1,
-                                                                                                                  i + 1))
-                    # Scan xk cw from F1 until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                    w2 = None
-                    idcs_list = np.flip(np.roll(np.arange(xk.shape[0]), -F1_idx - 1)) if xk_bounded else range(F1_idx,
-                                                                                                               0, -1)
-                    # for s in range(F1_idx, 0, -1):
-                    for s in idcs_list:
-                        ws = xk[s, :]
-                        ws_prev = xk[s - 1, :]
-                        # Get intersection w2 of edge and line ->(vi->vi+1)->vi+1
-                        w2 = get_intersection(ws_prev, ws, start_point, vi_1)
-
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                            col = 'r' if w2 is None else 'g'
-                            plt.plot([ws_prev[0], ws[0]], [ws_prev[1], ws[1]], marker='*', color=col, label="edge")
-                            plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                     label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                            plt.title(
-                                "Scan xk cw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                    i + 1,
-                                                                                                                    i + 1))
-
-                        if w2 is not None:
-                            if xk_bounded and s > t:
-                                alpha = xk[xk.shape[0]:, :]  # Empty array
-                                beta = xk[t:s, :]
-                                L1_idx = L1_idx - t + 2
-                            else:
-                                alpha = xk[:s, :]
-                                beta = xk[t:, :]
-                                L1_idx = L1_idx - t + s + 2
-                            if debug:
-                                print("xk: ", end=" ")
-                                print(xk)
-                                print("alpha: ", end=" ")
-                                print(alpha)
-                                print("beta: ", end=" ")
-                                print(beta)
-                                print("w1: ", end=" ")
-                                print(w1)
-                                print("w2: ", end=" ")
-                                print(w2)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            xk = np.vstack((alpha, w2, w1, beta))
-                            w1_idx = alpha.shape[0] + 1
-                            w2_idx = alpha.shape[0]
-                            ####### F1 index reassignment should not be necessary for this case
-                            F1_idx = w2_idx
-                            # L1_idx = L1_idx - t + s + 2
-
-                            if verbose:
-                                print("Update 1")
-                                print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w2[0], w2[1], i,
-                                                                                                    i + 1, i + 1))
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached
-                    if w2 is None:
-                        # Test if xk+1 is bounded
-                        # If slope ->(vi->vi+1)->vi+1 is comprised between the slopes of initial and final half lines of xk,
-                        if (orientation_val(xk[-2, :], xk[-1, :], start_point) * orientation_val(vi_1, start_point,
-                                                                                                 xk[0, :])) > 0:
-                            beta = xk[t:, :]
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.plot(xk[:2, 0], xk[:2, 1], '--c', label="initial half line")
-                                plt.plot(xk[-2:, 0], xk[-2:, 1], '--m', label="final half line")
-                                plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                         label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                plt.title(
-                                    "->(v{}->v{})->v{} between initial and finial half lines of xk".format(
-                                        i, i + 1, i + 1))
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 2 - xk still unbounded")
-                            # then xk+1= ->(vi->vi+1)->w1->beta is also unbounded.
-                            xk = np.vstack((start_point, w1, beta))
-                            w1_idx = 1
-                            # xk_bounded = False
-                            F1_idx = 0
-                            L1_idx -= t - 1
-
-
-                        else:
-                            # otherwise scan xk cw from xk[-1,:] until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                            if verbose:
-                                print(
-                                    "Scan xk cw from end until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                        i, i + 1, i + 1))
-                            w2 = None
-                            if xk_bounded:
-                                r = xk.shape[0]
-                                w2 = get_intersection(xk[0, :], xk[r - 1, :], start_point, vi_1)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                    col = 'r' if w2 is None else 'g'
-                                    plt.plot([xk[r - 1, 0], xk[0, 0]], [xk[r - 1, 1], xk[0, 1]], marker='*', color=col,
-                                             label="edge")
-                                    plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*',
-                                             color='y',
-                                             label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                    plt.title(
-                                        "Scan xk cw from xk[-1, :] until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                            i, i + 1, i + 1))
-                                    if w2 is not None:
-                                        delta = xk[t:r, :]
-                                        if debug:
-                                            print(t, r)
-                                            plt.plot(delta[:, 0], delta[:, 1], 'k--', label="delta")
-                                            plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                            plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                            plt.legend()
-                                            plt.show()
-                                    if debug:
-                                        plt.legend()
-                                        plt.show()
-                            if w2 is None:
-                                for r in range(xk.shape[0] - 1, 0, -1):
-                                    # Get intersection w2 of edge and line ->(vi->vi+1)->vi+1
-                                    w2 = get_intersection(xk[r, :], xk[r - 1, :], start_point, vi_1)
-                                    if debug:
-                                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                        plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                        col = 'r' if w2 is None else 'g'
-                                        plt.plot([xk[r - 1, 0], xk[r, 0]], [xk[r - 1, 1], xk[r, 1]], marker='*',
-                                                 color=col, label="edge")
-                                        plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*',
-                                                 color='y', label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                        plt.title(
-                                            "Scan xk cw from xk[-1, :] until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                                i, i + 1, i + 1))
-                                    if w2 is not None:
-                                        delta = xk[t:r, :]
-                                        if debug:
-                                            print(t, r)
-                                            plt.plot(delta[:, 0], delta[:, 1], 'k--', label="delta")
-                                            plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                            plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                            plt.legend()
-                                            plt.show()
-                                        break
-                                    if debug:
-                                        plt.legend()
-                                        plt.show()
-                            if verbose:
-                                print("Update 3")
-                                print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w2[0], w2[1], i,
-                                                                                                    i + 1, i + 1))
-                            # Set xk as delta-w2-w1
-                            xk = np.vstack((delta, w2, w1))
-                            w1_idx = delta.shape[0] + 1
-                            w2_idx = delta.shape[0]
-                            xk_bounded = True
-
-                            F1_idx = 0
-                            L1_idx = min(L1_idx - t, xk.shape[0] - 1)
-
-                # F1 update
-                if case == 1:
-                    # If ->(vi->vi+1)->vi+1 has just one intersection with xk F1 = startpoint
-                    if w2 is None:
-                        F1_idx = 0
-                    # Otherwise F1 = w2
-                    else:
-                        F1_idx = w2_idx
-                if case == 2:
-                    # Scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the
-                    # right of vi+1->(vi+1->wt)->. Let F1 = wt.
-                    idx_offsets = range(xk.shape[0])
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        w_next = xk[(t + 1) % xk.shape[0], :]
-                        line_end_point = vi_1 + INF_VAL * (xk[t, :] - vi_1)
-                        if point_right_of_line(w_next, vi_1, line_end_point):
-                            F1_idx = t
-                            break
-
-                # Check update of previous L1 index for new xk
-                # if not np.isclose(np.linalg.norm(L1 - xk[L1_idx, :]), 0):
-                # print("BAD L1 update [{},{}] -> [{},{}]".format(xk[L1_idx, 0], xk[L1_idx, 1], L1[0], L1[1]))
-                # plt.figure(2)
-                # draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                # plt.show()
-
-                # L1 update
-                # scan xk ccw from L1 until find vertex wu s.t. wu+1 lies to the
-                # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                idx_offsets = range(xk.shape[0])
-                for off in idx_offsets:
-                    u = (L1_idx + off) % xk.shape[0]
-                    w_next = xk[(u + 1) % xk.shape[0], :]
-                    line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                    if point_left_of_line(w_next, vi_1, line_end_point):
-                        L1_idx = u
-                        break
-
-            else:
-                if verbose:
-                    print("(2)")
-                # Endpoint for line vi->(vi->vi+1)->
-                end_point = vi + INF_VAL * (vi_1 - vi) / np.linalg.norm(vi_1 - vi)
-
-                # (2.2) L1 lies to the left of line vi->(vi->vi+1)->
-                if point_left_of_line(L1, vi, end_point):
-                    case = 2
-                    if verbose:
-                        print("(2.2) - L1 ({},{}) lies to the left of line v{}->(v{}->v{})->".format(L1[0], L1[1], i, i,
-                                                                                                     i + 1))
-                    # xk stays the same
-
-                    if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.plot([end_point[0], vi[0]], [end_point[1], vi[1]], marker='*', color='y',
-                                 label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                        plt.title("L1 lies to the left of line v{}->(v{}->v{})->".format(i, i, i + 1))
-                        plt.show()
-
-                # (2.1) L1 lies on or to the right of line vi->(vi->vi+1)->
-                else:
-                    case = 1
-                    if verbose:
-                        print(
-                            "(2.1) - L1 ({},{}) lies on or to the right of line v{}->(v{}->v{})->".format(L1[0], L1[1],
-                                                                                                          i, i, i + 1))
-                        print(
-                            "Scan xk cw from L1 until we reach F1 or an edge intersecting line v{}->(v{}->v{})->".format(
-                                i, i, i + 1))
-                    # Scan xk cw from L1 until we reach F1 or an edge intersecting line vi->(vi->vi+1)->
-                    idx_offsets = range(xk.shape[0])
-                    w1 = None
-                    for off in idx_offsets:
-                        t = L1_idx - off
-                        # If circular
-                        if t < 0:
-                            t += xk.shape[0]
-                        if t == F1_idx:
-                            break
-                        # Get intersection w1 of edge and line vi->(vi->vi+1)->
-                        w1 = get_intersection(xk[t, :], xk[t - 1, :], vi, end_point)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w1 is None else 'g'
-                            plt.plot([xk[t - 1, 0], xk[t, 0]], [xk[t - 1, 1], xk[t, 1]], marker='*', color=col,
-                                     label="edge")
-                            plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                     label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                            plt.title(
-                                "Scan xk cw from L1 until we reach F1 or an edge intersecting line v{}->(v{}->v{})->".format(
-                                    i,
-                                    i,
-                                    i + 1))
-                        if w1 is not None:
-                            if debug:
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.legend()
-                                plt.show()
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached no kernel exists
-                    if w1 is None:
-                        # if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.title('No kernel found. Polygon not starshaped.')
-                        plt.show()
-                        return False
-
-                    if verbose:
-                        print("Found intersection ({},{}) at line v{}->(v{}->v{})-> for edge ({},{})-({},{})".format(
-                            w1[0], w1[1], i, i, i + 1, xk[t - 1, 0], xk[t - 1, 1], xk[t, 0], xk[t, 1]))
-                        print("Scan xk ccw from L1 until we reach edge intersecting line v{}->(v{}->v{})->".format(i,
-                                                                                                                   i,
-                                                                                                                   i + 1))
-                    # Scan xk ccw from L1 until we reach edge w2 intersecting line vi->(vi->vi+1)->
-                    w2 = None
-                    idx_offsets = range(1, xk.shape[0] + 1)
-                    for off in idx_offsets:
-                        s = (L1_idx + off) % xk.shape[0]
-                        if not xk_bounded and s == 0:
-                            break
-                        # Get intersection w2 of edge and line vi->(vi->vi+1)->
-                        w2 = get_intersection(xk[s - 1, :], xk[s, :], vi, end_point)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w2 is None else 'g'
-                            plt.plot([xk[s - 1, 0], xk[s, 0]], [xk[s - 1, 1], xk[s, 1]], marker='*', color=col,
-                                     label="edge")
-                            plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                     label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                            plt.title(
-                                "Scan xk ccw from L1 until we reach edge intersecting line v{}->(v{}->v{})->".format(i,
-                                                                                                                     i,
-                                                                                                                     i + 1))
-                        if w2 is not None:
-                            if xk_bounded and t > s:
-                                alpha = xk[xk.shape[0]:, :]  # Empty array
-                                beta = xk[s:t, :]
-                            else:
-                                alpha = xk[:t, :]
-                                beta = xk[s:, :]
-                            if debug:
-                                print("xk: ", end=" ")
-                                print(xk)
-                                print("alpha: ", end=" ")
-                                print(alpha)
-                                print("beta: ", end=" ")
-                                print(beta)
-                                print("w1: ", end=" ")
-                                print(w1)
-                                print("w2: ", end=" ")
-                                print(w2)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 1")
-                                print(
-                                    "Found intersection ({},{}) at line v{}->(v{}->v{})-> for edge ({},{})-({},{})".format(
-                                        w2[0], w2[1], i, i, i + 1, xk[s, 0], xk[s, 1], xk[(s + 1) % xk.shape[0], 0],
-                                        xk[(s + 1) % xk.shape[0], 1]))
-
-                            xk = np.vstack((alpha, w1, w2, beta))
-                            w1_idx = alpha.shape[0]
-                            w2_idx = alpha.shape[0] + 1
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached
-                    if w2 is None:
-                        # Test if xk+1 is bounded
-                        # If slope vi->(vi->vi+1)-> is comprised between the slopes of initial and final half lines of xk,
-                        if not xk_bounded and ((orientation_val(xk[-2, :], xk[-1, :], end_point) * orientation_val(vi,
-                                                                                                                   end_point,
-                                                                                                                   xk[0,
-                                                                                                                   :])) > 0):
-                            alpha = xk[:t, :]
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.plot(xk[:2, 0], xk[:2, 1], '--c', label="initial half line")
-                                plt.plot(xk[-2:, 0], xk[-2:, 1], '--m', label="final half line")
-                                plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                         label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                                plt.title(
-                                    "v{}->(v{}->v{})-> between initial and final half lines of xk".format(
-                                        i, i, i + 1))
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 2 - xk still unbounded")
-                            # then xk+1= alpha->w1->(vi->vi+1)-> is also unbounded.
-                            xk = np.vstack((alpha, w1, end_point))
-                            w1_idx = alpha.shape[0]
-                            L1_idx = xk.shape[0] - 1
-                            F1_idx = 0
-                        else:
-                            if verbose:
-                                print(
-                                    "Scan xk ccw from start until we reach edge intersecting line v{}->(v{}->v{})->".format(
-                                        i,
-                                        i,
-                                        i + 1))
-                            # otherwise scan xk ccw from xk[0,:] until we reach edge intersecting line vi->(vi->vi+1)->
-                            w2 = None
-                            for r in range(1, xk.shape[0] + 1):
-                                # Get intersection w2 of edge and line vi->(vi->vi+1)->
-                                w2 = get_intersection(xk[r - 1, :], xk[r % xk.shape[0], :], vi, end_point)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    col = 'r' if w2 is None else 'g'
-                                    plt.plot([xk[r - 1, 0], xk[r % xk.shape[0], 0]],
-                                             [xk[r - 1, 1], xk[r % xk.shape[0], 1]], marker='*', color=col,
-                                             label="edge")
-                                    plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                             label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                                    plt.title(
-                                        "Scan xk ccw from xk[0,:] until we reach edge intersecting line v{}->(v{}->v{})->".format(
-                                            i,
-                                            i,
-                                            i + 1))
-                                if w2 is not None:
-                                    delta = xk[r:t, :]
-                                    if debug:
-                                        plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                        plt.legend()
-                                        plt.show()
-                                    break
-                                if debug:
-                                    plt.legend()
-                                    plt.show()
-                            if verbose:
-                                print("Update 3")
-                                print("Found intersection ({},{}) at line v{}->(v{}->v{})->".format(w2[0], w2[1], i, i,
-                                                                                                    i + 1))
-                            # Set xk as delta-w1-vi-vi+1-w2
-                            xk = np.vstack((delta, w1, w2))
-                            w1_idx = delta.shape[0]
-                            w2_idx = delta.shape[0] + 1
-                            xk_bounded = True
-                            F1_idx = 0
-                            L1_idx = min(L1_idx - t, xk.shape[0] - 1)
-
-                # F1 update
-
-                # If vi+1 in vi->(vi->vi+1)->w1,
-                if case == 2 or is_between(vi, vi_1, w1):
-                    # scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the
-                    # right of vi+1->(vi+1->wt)->. Let F1 = wt.
-                    idx_offsets = range(xk.shape[0])
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        w_next = xk[(t + 1) % xk.shape[0], :]
-                        line_end_point = vi_1 + INF_VAL * (xk[t, :] - vi_1)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                     label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                            c = 'g' if point_right_of_line(w_next, vi_1, line_end_point) else 'r'
-                            plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                            plt.title(
-                                "Update F1\n scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the right of v{}->(v{}->wt)->.".format(
-                                    i + 1, i + 1))
-                            plt.legend()
-                            plt.show()
-                        if point_right_of_line(w_next, vi_1, line_end_point):
-                            F1_idx = t
-                            break
-                else:
-                    F1_idx = w1_idx
-
-                # L1 update
-                if case == 1:
-                    if w2 is not None:
-                        # If vi+1 in vi->(vi->vi+1)->w2
-                        if is_between(vi, vi_1, w2):
-                            L1_idx = w2_idx
-                        else:
-                            # scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the
-                            # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                            idx_offsets = range(xk.shape[0])
-                            for off in idx_offsets:
-                                u = (w2_idx + off) % xk.shape[0]
-                                w_next = xk[(u + 1) % xk.shape[0], :]
-                                line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                             label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                                    c = 'g' if point_left_of_line(w_next, vi_1, line_end_point) else 'r'
-                                    plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                                    plt.title(
-                                        "Update L1\n scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the left of v{}->(v{}->wt)->.".format(
-                                            i + 1, i + 1))
-                                    plt.legend()
-                                    plt.show()
-                                if point_left_of_line(w_next, vi_1, line_end_point):
-                                    L1_idx = u
-                                    break
-
-                    # (2.1.2) line vi->(vi->vi+1)-> intersects xk just in w1
-                    else:
-                        L1_idx = xk.shape[0] - 1
-                if case == 2:
-                    # print("(2.1.2)")
-                    if xk_bounded:
-                        # scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the
-                        # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                        idcs_list = np.roll(np.arange(xk.shape[0]), -L1_idx) if xk_bounded else range(L1_idx,
-                                                                                                      xk.shape[0] - 1)
-                        for u in idcs_list:
-                            w_next = xk[(u + 1) % xk.shape[0], :]
-                            line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                         label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                                c = 'g' if point_left_of_line(w_next, vi_1, line_end_point) else 'r'
-                                plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                                plt.title(
-                                    "Update L1\n scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the left of v{}->(v{}->wt)->.".format(
-                                        i + 1, i + 1))
-                                plt.legend()
-                                plt.show()
-                            if point_left_of_line(w_next, vi_1, line_end_point):
-                                L1_idx = u
-                                break
-
-            if verbose:
-                print("F1:", end=" ")
-                print(F1)
-                print("L1:", end=" ")
-                print(L1)
-                print("xk:", end=" ")
-                print(xk)
-        if debug or verbose:
-            draw(xk, F1_idx, L1_idx, 0, xk_bounded)
-            plt.show()
-        _, idx = np.unique(xk, axis=0, return_index=True)
-        xk = xk[np.sort(idx), :]
-        self._kernel = shapely.geometry.Polygon(xk)
-
-
+        v = np.asarray(shapely.ops.orient(self._polygon).exterior.coords)
+        # The kernel is the intersection of the half planes to the left of each edge. Clip bounding box successively.
+        xk = np.asarray(shapely.geometry.box(*self._polygon.bounds).exterior.coords)[:-1, :]
+        for i in range(v.shape[0] - 1):
+            edge = v[i + 1, :] - v[i, :]
+            if not np.any(edge):
+                continue
+            # Signed distance from (the line through) the edge, positive to the left
+            dist = (edge[0] * (xk[:, 1] - v[i, 1]) - edge[1] * (xk[:, 0] - v[i, 0])) / np.linalg.norm(edge)
+            xk_clipped = []
+            for j in range(xk.shape[0]):
+                if dist[j - 1] * dist[j] < 0:
+                    xk_clipped += [xk[j - 1, :] + dist[j - 1] / (dist[j - 1] - dist[j]) * (xk[j, :] - xk[j - 1, :])]
+                if dist[j] >= 0:
+                    xk_clipped += [xk[j, :]]
+            # Polygon is not starshaped
+            if len(xk_clipped) < 3:
+                self._kernel = shapely.geometry.Polygon()
+                return
+            xk = np.array(xk_clipped)
+
+        # Discard repeated and collinear points
+        self._kernel = shapely.geometry.MultiPoint(xk).convex_hull
+        if self._kernel.geom_type != 'Polygon':
+            self._kernel = shapely.geometry.Polygon()
-- 
2.43.0


From 302fb675eb3314eca16cd78d15fda793e00e7af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 24/57] fix: starshaped hull of polygons wrong or invalid for
 many polygons and kernel points

---
 starshaped_hull/starshaped_hull.py | 169 ++---------------------------
 1 file changed, 8 insertions(+), 161 deletions(-)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 8fde482..b74b0e0 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -1,8 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Polygon
-from utils import is_ccw, is_cw, line, ray, Cone, convex_hull
-import matplotlib.pyplot as plt
+from utils import Cone, convex_hull
 
 
 def admissible_kernel(obstacle, x):
@@ -45,163 +44,11 @@ def convex_kernel_starshaped_hull(convex_obstacle, kernel_points):
     return shapely.geometry.Polygon(pol)
 
 
-# TODO: Improve computational consideration
-def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
+# The starshaped hull of a polygon is the union of the convex hulls of the kernel points and each edge (and the polygon)
+def polygon_kernel_starshaped_hull(polygon, kernel_points):
     kernel_points = kernel_points.reshape((kernel_points.size//2, 2))
-
-    if kernel_points.shape[0] > 2:
-        # NOTE: Assumes kernel points convex
-        # convex_kernel_subset = shapely.geometry.Polygon(kernel_points[ConvexHull(kernel_points).vertices, :])
-        convex_kernel_subset = shapely.geometry.Polygon(kernel_points)
-
-    # polygon_sh = polygon.polygon()  # Shapely represenation of polygon
-    # vertices = np.asarray(polygon_sh.exterior.coords)[:-1, :]  # Vertices of polygon
-    vertices = np.asarray(polygon.exterior.coords)[:-1, :]  # Vertices of polygon
-    star_vertices = []  # Vertices of starshaped hull polygon
-    v_bar = kernel_points[0].copy() # Last vertex of starshaped hull polygon
-    e1_idx = 0
-    e2_idx = 0
-    k_centroid = np.mean(kernel_points, axis=0)
-    k_included = [False] * kernel_points.shape[0]
-
-    # Arrange vertices such that v_1 is the one with largest x-value and vendv1v2 is CCW, (assumes no collinear vertices in P)
-    start_idx = np.argmax(vertices[:, 0])
-    vertices = np.roll(vertices, -start_idx, axis=0)
-    if is_cw(vertices[-1], vertices[0], vertices[1]):
-        vertices = np.flip(vertices, axis=0)
-        vertices = np.roll(vertices, 1, axis=0)
-    # print("Initial sort: {:.1f}".format(toc(t0)))
-
-    # Iterate through all vertices
-    for v_idx, v in enumerate(vertices):
-        adjust_e1 = False
-        # Check if no ray r(v,kv) intersects with interior of polygon
-        if all([ray(v, k, v).disjoint(polygon) for k in kernel_points]):
-            # Add current vertex
-            if kernel_points.shape[0] < 3 or not convex_kernel_subset.contains(shapely.geometry.Point(v)):
-                star_vertices += [v]
-            if star_vertices:
-                # Intersections of lines l(k,v) and l(e1,e2)
-                e1, e2 = star_vertices[e1_idx], star_vertices[e2_idx]
-                e1_e2 = line(e1, e2)
-
-                for k in kernel_points:
-                    kv_e1e2_intersect = line(k,v).intersection(e1_e2)
-                    # Adjust to closest intersection to e2
-                    if not kv_e1e2_intersect.is_empty:
-                        adjust_e1 = True
-                        e1_candidate = np.array([kv_e1e2_intersect.x, kv_e1e2_intersect.y])
-                        if np.linalg.norm(e2 - e1_candidate) < np.linalg.norm(e2 - star_vertices[e1_idx]):
-                            star_vertices[e1_idx] = e1_candidate
-
-            if not adjust_e1:
-                for k_idx, k in enumerate(kernel_points):
-                    kps = [kp for kp in kernel_points if not np.array_equal(kp, k)]
-                    kv_P_intersect = line(k, v).intersection(polygon)
-
-                    # If l(k,v) intersects interior of P
-                    if not kv_P_intersect.is_empty:
-                        # Find last intersection of l(k,v) and polygon boundary
-                        if kv_P_intersect.geom_type == 'LineString':
-                            intersection_points = [np.array([ip[0], ip[1]]) for ip in kv_P_intersect.coords]
-                        elif kv_P_intersect.geom_type == 'MultiLineString':
-                            intersection_points = [np.array([ip[0], ip[1]]) for l in kv_P_intersect.geoms for ip in
-                                                   l.coords]
-                        elif kv_P_intersect.geom_type == 'GeometryCollection':
-                            intersection_points = []
-                            for g in kv_P_intersect.geoms:
-                                if g.geom_type == 'Point':
-                                    intersection_points += [np.array(g.coords[0])]
-                                if kv_P_intersect.geom_type == 'LineString':
-                                    intersection_points += [np.array([ip[0], ip[1]]) for ip in g.coords]
-                        else:
-                            intersection_points = []
-
-                        u = None
-                        u_v = None
-                        for u_candidate in intersection_points:
-                            u_v = line(u_candidate, v)
-                            if u_v.disjoint(polygon):
-                                u = u_candidate
-                                break
-                        if u is None:
-                            continue
-
-                        # If no ray r(u,k'v) intersect with interior of polygon
-                        if not any([ray(u, kp, v).intersects(polygon) for kp in kps]):
-                            # Adjust u if l(k',v_bar) intersects l(u,v)
-                            for kp in kps:
-                                kpvb_uv_intersect = line(kp, v_bar).intersection(u_v)
-                                if not kpvb_uv_intersect.is_empty:
-                                    u = np.array([kpvb_uv_intersect.x, kpvb_uv_intersect.y])
-                            # Append u to P*
-                            star_vertices += [u]
-                            # Update last augmented edge
-                            e1_idx, e2_idx = len(star_vertices)-1, len(star_vertices)-2
-                            # Swap last vertices if not CCW
-                            if is_ccw(u, v, vertices[v_idx-1]):
-                            # if is_ccw(v_bar, v, u):
-                            # if is_cw(k_centroid, v, u):
-                                star_vertices[-2], star_vertices[-1] = star_vertices[-1], star_vertices[-2]
-                                e1_idx, e2_idx = e2_idx, e1_idx
-                            adjust_e1 = True
-                    else:
-                        # Check if no ray r(k,k'v) intersect with interior of polygon
-                        if (not k_included[k_idx]) and (not any([ray(k, kp, v).intersects(polygon) for kp in kps])):
-                            k_included[k_idx] = True
-                            # Append k to P*
-                            star_vertices += [k]
-                            # Update last augmented edge
-                            e1_idx, e2_idx = len(star_vertices)-1, len(star_vertices)-2
-                            # Swap last vertices if not CCW
-                            if is_ccw(k, v, vertices[v_idx-1]):
-                            # if is_cw(k_centroid, v, k):
-                                star_vertices[-2], star_vertices[-1] = star_vertices[-1], star_vertices[-2]
-                                e1_idx, e2_idx = e2_idx, e1_idx
-                            adjust_e1 = True
-            # Update v_bar
-            v_bar = star_vertices[-1]
-
-            # Visualize debug information
-            if debug == 1:
-                plt.plot(*k_centroid, 'ko')
-                plt.plot(*polygon.exterior.xy, 'k')
-                plt.plot([p[0] for p in star_vertices], [p[1] for p in star_vertices], 'g-o', linewidth=2)
-                [plt.plot(*k, 'kx') for k in kernel_points]
-                [plt.plot(*line(k,v).xy, 'k--') for k in kernel_points]
-                if adjust_e1:
-                    plt.plot(*star_vertices[e1_idx], 'ys')
-                plt.show()
-
-    # Check not added kernel points if they should be included
-    for j in range(len(star_vertices)):
-        v, vp = star_vertices[j - 1], star_vertices[j]
-        for k_idx, k in enumerate(kernel_points):
-            if (not k_included[k_idx]) and is_cw(k, v, vp):
-                k_included[k_idx] = True
-                # Insert k
-                star_vertices = star_vertices[:j] + [k] + star_vertices[j:]
-                # Visualize debug information
-                if debug == 1:
-                    plt.plot(*k_centroid, 'ko')
-                    plt.plot(*polygon.exterior.xy, 'k')
-                    plt.plot([p[0] for p in star_vertices], [p[1] for p in star_vertices], 'g-o', linewidth=2)
-                    [plt.plot(*ki, 'kx') for ki in kernel_points]
-                    plt.plot(*line(k, v).xy, 'r--*')
-                    plt.plot(*line(k, vp).xy, 'r--*')
-                    plt.plot(*k, 'go')
-                    plt.show()
-    # print("Final kernel check: {:.1f}".format(toc(t0)))
-
-    if debug:
-        ax = plt.gca()
-        ax.plot(*polygon.exterior.xy, 'k')
-        ax.plot([p[0] for p in star_vertices] + [star_vertices[0][0]],
-                [p[1] for p in star_vertices] + [star_vertices[0][1]], 'g-o', linewidth=2)
-        # [ax.plot(star_vertices[i][0], star_vertices[i][1], 'r*') for i in augmented_vertex_idcs]
-        [ax.plot(*zip(k, sv), 'y--') for sv in star_vertices for k in kernel_points]
-        ax.plot(*k_centroid, 'bs')
-        plt.show()
-
-    return shapely.geometry.Polygon(star_vertices)
-
+    vertices = np.asarray(polygon.exterior.coords)
+    edge_hulls = [shapely.geometry.MultiPoint(np.vstack((kernel_points, vertices[i:i+2]))).convex_hull
+                  for i in range(vertices.shape[0] - 1)]
+    # Edges in line with all kernel points do not contribute
+    return shapely.ops.unary_union([polygon] + [h for h in edge_hulls if h.geom_type == 'Polygon'])
-- 
2.43.0


From 6a2893ef67f6111b3bca1aae02071a9df9ffb298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 25/57] fix: cluster_and_starify fails for convex obstacles of
 class Polygon

---
 starshaped_hull/cluster_and_starify.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 2e825e8..c86581a 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -1,6 +1,6 @@
 import shapely
 import numpy as np
-from obstacles import Frame, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
+from obstacles import Frame, StarshapedObstacle, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
 from utils import is_ccw, is_collinear, equilateral_triangle, Cone, tic, toc, draw_shapely_polygon
 from scipy.spatial import ConvexHull
 import starshaped_hull as sh
@@ -101,7 +101,8 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     # Try to use intersection of all obstacle kernels in cluster if all starshaped
     if all([o.is_starshaped() for o in cl.obstacles]):
         for o in cl.obstacles:
-            tcss_tmp = tcss_tmp.intersection(o.kernel())
+            # A convex Polygon is its own kernel
+            tcss_tmp = tcss_tmp.intersection(o.kernel() if isinstance(o, StarshapedObstacle) else o.polygon())
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
     # Else, try to use union of all obstacles in cluster
     if tcss_tmp.area < 1e-6:
@@ -257,7 +258,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         t1 = tic()
         k_centroid = np.mean(cl.kernel_points, axis=0)
         if cluster_hull_extensions is None:
-            cl.cluster_obstacle = o
+            cl.cluster_obstacle = o if isinstance(o, StarshapedObstacle) else StarshapedPolygon(o.polygon(), xr=k_centroid, id=o.id())
             cl.cluster_obstacle.set_xr(k_centroid, input_frame=Frame.GLOBAL)
         else:
         # Non-starshaped polygons are included in the cluster hull
-- 
2.43.0


From d2fe68b9af33bd42bc2995779a52bcd1d09bf58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 26/57] fix: kernel points selected outside the admissible
 kernel

---
 starshaped_hull/cluster_and_starify.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index c86581a..1dcd0d2 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -134,6 +134,15 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
         tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, triangle_center_selection_set.centroid)
         triangle_center = np.array(tc.coords[0])
 
+    # TCSS may include isolated points and lines
+    if tcss.geom_type != 'Polygon':
+        tcss = shapely.ops.unary_union([p for p in tcss.geoms if p.geom_type == 'Polygon'])
+    # For a nonconvex TCSS the centroid may be outside (or on the boundary of) the TCSS
+    if not tcss.contains(shapely.geometry.Point(triangle_center)):
+        triangle_center = np.array(tcss.representative_point().coords[0])
+        while is_collinear(x, xg, triangle_center):
+            triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
+
     ts['tc selection'] = toc(t0)-list(ts.values())[-1]
 
     # if cl.name == '5_6_7':
-- 
2.43.0


From 9dcb29fd7ca7eb78366734065e3f152717189b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 27/57] fix: kernel points far from clusters with
 non-starshaped obstacles

---
 starshaped_hull/cluster_and_starify.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 1dcd0d2..7807cf2 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -99,13 +99,14 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     tcss_tmp = tcss
     ts['ws check'] = toc(t0)
     # Try to use intersection of all obstacle kernels in cluster if all starshaped
-    if all([o.is_starshaped() for o in cl.obstacles]):
+    all_starshaped = all([o.is_starshaped() for o in cl.obstacles])
+    if all_starshaped:
         for o in cl.obstacles:
             # A convex Polygon is its own kernel
             tcss_tmp = tcss_tmp.intersection(o.kernel() if isinstance(o, StarshapedObstacle) else o.polygon())
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
     # Else, try to use union of all obstacles in cluster
-    if tcss_tmp.area < 1e-6:
+    if not all_starshaped or tcss_tmp.area < 1e-6:
         tcss_tmp = tcss.intersection(cl.polygon_excluding_hull())
     ts['cluster intersection'] = toc(t0)-list(ts.values())[-1]
     if tcss_tmp.area > 1e-6:
-- 
2.43.0


From f22d347f0b61721984823d8a55875b701e623168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 28/57] fix: cluster_and_starify reports COMPLETE when stopped
 by max_iterations

---
 starshaped_hull/cluster_and_starify.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 7807cf2..cd5fb9c 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -334,6 +334,13 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
             cluster_iterations += [clusters]
             return default_result()
 
+        # Check number of iterations
+        if n_iter >= max_iterations:
+            if verbose:
+                print("[Cluster and Starify]: Max iterations.")
+            cluster_iterations += [clusters]
+            return default_result()
+
         # Find starshaped obstacle representation for each cluster
         for i, cl in enumerate(clusters):
             # If cluster already calculated keep it
@@ -418,9 +425,6 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
 
         n_iter += 1
 
-        if n_iter >= max_iterations:
-            break
-
     # ----------- Make Convex ----------- #
 
     if make_convex:
-- 
2.43.0


From c8e4e3712986cd8faa741e9b69d57df4f5fd3d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 29/57] fix: cluster_and_starify fails when the admissible
 kernel of a single obstacle is empty

---
 starshaped_hull/cluster_and_starify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index cd5fb9c..74d4eaf 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -253,6 +253,11 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         cl.admissible_kernel = adm_ker_robot_cones[o.id()].intersection(adm_ker_goal_cones[o.id()])
         kernel_time[0] += toc(t1)
 
+        if cl.admissible_kernel.is_empty or cl.admissible_kernel.area < 1e-6:
+            if verbose:
+                print("[Cluster and Starify]: Could not find starshaped obstacle. Admissible kernel empty for obstacle " + cl.name)
+            return default_result()
+
         t1 = tic()
         cl_prev = extract_cluster(cl, previous_clusters)
         # if cl_prev is None:
-- 
2.43.0


From e9fa1b5ca5e3862fbbccabf2bb5d1acbedced040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 30/57] fix: cluster_and_starify fails to split TCSS with
 isolated points or lines

---
 starshaped_hull/cluster_and_starify.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 74d4eaf..2024b6c 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -112,6 +112,10 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     if tcss_tmp.area > 1e-6:
         tcss = tcss_tmp
 
+    # TCSS may include isolated points and lines
+    if tcss.geom_type != 'Polygon':
+        tcss = shapely.ops.unary_union([p for p in tcss.geoms if p.geom_type == 'Polygon'])
+
     # If not tc from previous iteraion, use closest point to TCSS in ad ker as triangle center
     if triangle_center_prev is None:
         tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, tcss.centroid)
@@ -135,9 +139,6 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
         tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, triangle_center_selection_set.centroid)
         triangle_center = np.array(tc.coords[0])
 
-    # TCSS may include isolated points and lines
-    if tcss.geom_type != 'Polygon':
-        tcss = shapely.ops.unary_union([p for p in tcss.geoms if p.geom_type == 'Polygon'])
     # For a nonconvex TCSS the centroid may be outside (or on the boundary of) the TCSS
     if not tcss.contains(shapely.geometry.Point(triangle_center)):
         triangle_center = np.array(tcss.representative_point().coords[0])
-- 
2.43.0


From 6348bf6a14af64f0e0b8c55c43d60ef23161732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 31/57] fix: clusters made convex may intersect each other

---
 starshaped_hull/cluster_and_starify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 2024b6c..667aa99 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -451,6 +451,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
                     clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
+                    clusters[j]._polygon = None  # Not valid for the convex obstacle
 
         convex_time = toc(t1)
     # ----------- End Make Convex ----------- #
-- 
2.43.0


From bc5a49af3b78363df8a88a4cf1671f06922077ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 32/57] fix: no history returned when max compute time is
 reached in convex hull

---
 starshaped_hull/cluster_and_starify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 667aa99..824ca06 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -442,7 +442,10 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if max_compute_time < toc(t0):
                     if verbose:
                         print("[Cluster and Starify]: Max compute time in convex hull.")
-                    return clusters, [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)], MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
+                    timing_vec = [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)]
+                    if return_history:
+                        return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter, cluster_iterations
+                    return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
 
                 v = np.array(cl.polygon().exterior.coords)[:-1, :]
                 hull = ConvexHull(v)
-- 
2.43.0


From 4ea80571c7f3e1a078095d2cad2e5fecc335dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 33/57] fix: cluster name, used to find the previous cluster,
 depends on the clustering order

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 824ca06..e91d19f 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -9,7 +9,7 @@ import matplotlib.pyplot as plt
 
 class ObstacleCluster:
     def __init__(self, obstacles):
-        self.name = '_'.join([str(o.id()) for o in obstacles])
+        self.name = '_'.join(sorted([str(o.id()) for o in obstacles], key=lambda s: (len(s), s)))
         self.obstacles = obstacles
         self.cluster_obstacle = None if len(obstacles) > 1 else obstacles[0]
         self.kernel_points = None
-- 
2.43.0


From 210884be544f11fc96ecadf978341e90e9212e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 34/57] fix: exclude_obstacles fails for points in a pocket of
 a non-convex obstacle

---
 starshaped_hull/cluster_and_starify.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index e91d19f..ad56b41 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -232,10 +232,12 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if not all([o.exterior_point(x_ex) for x_ex in o_x_exclude]):
                     adm_ker_obstacles[o.id()][o_ex.id()] = None
                     continue
-                adm_ker_obstacles[o.id()][o_ex.id()] = sh.admissible_kernel(o, o_x_exclude[0]).polygon()
-                for v in o_x_exclude[1:]:
-                    adm_ker_obstacles[o.id()][o_ex.id()] = adm_ker_obstacles[o.id()][o_ex.id()].intersection(
-                        sh.admissible_kernel(o, v).polygon())
+                o_cones = [sh.admissible_kernel(o, v) for v in o_x_exclude]
+                # No admissible kernel exists if any point is enclosed by the obstacle
+                if any([cone is None for cone in o_cones]):
+                    adm_ker_obstacles[o.id()][o_ex.id()] = None
+                    continue
+                adm_ker_obstacles[o.id()][o_ex.id()] = Cone.list_intersection(o_cones)
     init_kernel_time = toc(t0)
 
     # -- First iteration -- #
-- 
2.43.0


From e3d0d6591c8508268245bc444031ed11a5d6c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 35/57] fix: exclude_obstacles fails for obstacles which are
 not polygons

---
 obstacles/obstacle.py | 4 ++++
 obstacles/polygon.py  | 4 ----
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/obstacles/obstacle.py b/obstacles/obstacle.py
index 0b41211..acade06 100644
--- a/obstacles/obstacle.py
+++ b/obstacles/obstacle.py
@@ -92,6 +92,10 @@ class Obstacle(ABC):
         else:
             raise Frame.InvalidFrameError
 
+    def extreme_points(self, frame=Frame.GLOBAL):
+        vertices = np.asarray(self.polygon(frame).exterior.coords)[:-1, :]
+        return [vertices[i] for i in range(vertices.shape[0])]
+
     def intersects(self, other):
         return self.polygon().intersects(other.polygon())
 
diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 94d0f25..5b57281 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -32,10 +32,6 @@ class Polygon(Obstacle):
         line_handles += [ax.text(0, 0, self._name)] if show_name else [None]
         return line_handles, ax
 
-    def extreme_points(self, frame=Frame.GLOBAL):
-        vertices = np.asarray(self.polygon(frame).exterior.coords)[:-1, :]
-        return [vertices[i] for i in range(vertices.shape[0])]
-
     def update_plot(self, line_handles, frame=Frame.GLOBAL):
         polygon = self.polygon(frame)
         boundary = np.vstack((polygon.exterior.xy[0], polygon.exterior.xy[1])).T
-- 
2.43.0


From 43538d014bfae865bb4f9397ebcaa1a8468dbe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 36/57] fix: same apex intersection wrong for cones with a
 common ray

---
 utils/cg.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 0069661..aaf0f35 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -371,25 +371,23 @@ class Cone:
             return self.polygon().intersection(other.polygon())
 
     def intersection_same_apex(self, other: 'Cone') -> List['Cone']:
-        other_dir1_in_self = self.point_in_cone(other.apex+other.dir1)
-        other_dir2_in_self = self.point_in_cone(other.apex+other.dir2)
-        self_dir1_in_other = other.point_in_cone(self.apex+self.dir1)
-
-        if other_dir1_in_self and other_dir2_in_self:
-            # Check several cones
-            if self_dir1_in_other:
-                return [Cone(self.apex, self.dir1, other.dir2),
-                        Cone(self.apex, other.dir1, self.dir2)]
-            else:
-                return [other]
-        elif other_dir1_in_self:
-            return [Cone(self.apex, other.dir1, self.dir2)]
-        elif other_dir2_in_self:
-            return [Cone(self.apex, self.dir1, other.dir2)]
-        elif self_dir1_in_other:
-            return [self]
-        else:
-            return []
+        # Angle from direction d1 to d2, counterclockwise
+        def ccw_angle(d1, d2):
+            angle = np.arctan2(d1[0] * d2[1] - d1[1] * d2[0], np.dot(d1, d2)) % (2 * np.pi)
+            return 0. if 2 * np.pi - angle < COLLINEAR_THRESHOLD else angle
+
+        # Each dir1 in the other cone is the start of an intersection cone, which extends to the closest dir2
+        intersection_cones = []
+        for c1, c2 in [(self, other), (other, self)]:
+            start_angle = ccw_angle(c2.dir1, c1.dir1)
+            if start_angle >= ccw_angle(c2.dir1, c2.dir2) - COLLINEAR_THRESHOLD:
+                continue
+            # Common dir1 is already considered
+            if intersection_cones and start_angle < COLLINEAR_THRESHOLD:
+                continue
+            c1_first = ccw_angle(c1.dir1, c1.dir2) <= ccw_angle(c1.dir1, c2.dir2)
+            intersection_cones += [Cone(self.apex, c1.dir1, c1.dir2 if c1_first else c2.dir2)]
+        return intersection_cones
 
     @staticmethod
     def list_intersection(cones: List['Cone'], same_apex=False) -> shapely.geometry.Polygon:
-- 
2.43.0


From ebb12fd3d83c346b9c96dae37bfa317fbb9dafed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 37/57] fix: Cone.polygon invalid for (almost) diagonal rays

---
 utils/cg.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index aaf0f35..ae5abd5 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -323,24 +323,20 @@ class Cone:
         else:
             ray2_intersection_idx = 3
 
-        r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-        r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-        if r1_border is None:
-            ray1_intersection_idx = (ray1_intersection_idx + 1) % 4
-            r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-            if r1_border is None:
-                ray1_intersection_idx = (ray1_intersection_idx + 2) % 4
-                r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-                if r1_border is None:
-                    print("SOMETHING WRONG!")
-        if r2_border is None:
-            ray2_intersection_idx = (ray2_intersection_idx + 1) % 4
-            r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-            if r2_border is None:
-                ray2_intersection_idx = (ray2_intersection_idx + 2) % 4
-                r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-                if r2_border is None:
-                    print("SOMETHING WRONG!")
+        # Intersection of ray and bounding box, starting with the edge given by idx. The edge may also be one of the adjacent
+        # edges since apex is not necessarily in the origin.
+        def border_intersection(ray, idx):
+            for edge_idx in [idx, (idx + 1) % 4, (idx - 1) % 4]:
+                border = ray.ray_intersection(Cone.bb_edges[edge_idx])
+                if border is not None and np.max(np.abs(border.xy)) < Cone.bb_width + 1e-3:
+                    # Place point exactly on the edge
+                    xy = [np.sign(c) * Cone.bb_width if Cone.bb_width - abs(c) < 1e-3 else c for c in border.xy]
+                    return Point(*xy), edge_idx
+            print("SOMETHING WRONG!")
+            return None, idx
+
+        r1_border, ray1_intersection_idx = border_intersection(self.ray1, ray1_intersection_idx)
+        r2_border, ray2_intersection_idx = border_intersection(self.ray2, ray2_intersection_idx)
 
         vertices = [self.apex, r1_border.xy]
         c_idx = ray1_intersection_idx
-- 
2.43.0


From a84dbd1ab2066e14cc47e46d42d4426e1cfec711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 38/57] fix: copy of Ellipse and StarshapedPolygon lacks the
 default arguments of Obstacle.copy

---
 obstacles/ellipse.py            | 2 +-
 obstacles/starshaped_polygon.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 587b793..dcb302e 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -16,7 +16,7 @@ class Ellipse(StarshapedObstacle):
         super().__init__(xr=xr, **kwargs)
         self.enclosing_ball_diameter = max(2*self._a[0], 2*self._a[1])
 
-    def copy(self, id, name):
+    def copy(self, id='temporary', name=None):
         if (id == 'duplicate' or id == 'd'):
             id = self.id()
         return Ellipse(id=id, name=name, a=self._a, xr=self._xr, n_pol=self._n_pol, motion_model=self._motion_model)
diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index f373ba9..a3dfd15 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -20,7 +20,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         self._update_vertex_angles()
         self.enclosing_ball_diameter = self._polygon.bounds[2]-self._polygon.bounds[0] + self._polygon.bounds[3]-self._polygon.bounds[1]
 
-    def copy(self, id, name):
+    def copy(self, id='temporary', name=None):
         if (id == 'duplicate' or id == 'd'):
             id = self.id()
         return StarshapedPolygon(id=id, name=name, polygon=self._polygon, xr=self._xr, motion_model=self._motion_model)
-- 
2.43.0


From e79ce3c7bcae29da190f6126f561bf2367c2afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 39/57] fix: ObstacleCluster.draw swaps axes and handles

---
 starshaped_hull/cluster_and_starify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index ad56b41..c9e3f57 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -35,9 +35,9 @@ class ObstacleCluster:
 
     def draw(self, ax=None):
         if self.cluster_obstacle is not None:
-            ax, _ = self.cluster_obstacle.draw(ax=ax, fc="green")
+            _, ax = self.cluster_obstacle.draw(ax=ax, fc="green")
         for obs in self.obstacles:
-            ax, _ = obs.draw(ax=ax)
+            _, ax = obs.draw(ax=ax)
         return ax, _
 
 
-- 
2.43.0


From d7cf56932e6ebc165f472418902b077a1378e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 40/57] fix: division by zero in kernel point timing when the
 clock does not advance

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index c9e3f57..aa733b9 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -164,7 +164,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     ts['triangle generation'] = toc(t0)-list(ts.values())[-1]
     tot_time = sum(ts.values())
     for k in ts.keys():
-        ts[k] = int(ts[k] / tot_time * 100)
+        ts[k] = int(ts[k] / tot_time * 100) if tot_time else 0
     # print(ts)
     return kernel_points
 
-- 
2.43.0


From 5ecd45895cd40022404aa770c7772e110625965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 41/57] fix: union of polygons with (almost) overlapping edges
 drops parts of obstacle combinations

---
 obstacles/starshaped_primitive_combination.py |  4 ++--
 starshaped_hull/cluster_and_starify.py        |  4 ++--
 starshaped_hull/starshaped_hull.py            |  6 +++---
 utils/cg.py                                   | 11 +++++++++++
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 434068f..393ec07 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Frame, StarshapedObstacle, StarshapedPolygon
-from utils import is_ccw, is_cw, draw_shapely_polygon
+from utils import is_ccw, is_cw, draw_shapely_polygon, polygon_union
 import matplotlib.pyplot as plt
 
 # Note: Local == Global frame
@@ -227,4 +227,4 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         obs_pol = [obs.polygon() for obs in self._obstacle_cluster]
         if self._hull_cluster is not None:
             obs_pol += [self._hull_cluster]
-        self._polygon = shapely.ops.unary_union(obs_pol)
+        self._polygon = polygon_union(obs_pol)
diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index aa733b9..aedb486 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Frame, StarshapedObstacle, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
-from utils import is_ccw, is_collinear, equilateral_triangle, Cone, tic, toc, draw_shapely_polygon
+from utils import is_ccw, is_collinear, equilateral_triangle, Cone, tic, toc, draw_shapely_polygon, polygon_union
 from scipy.spatial import ConvexHull
 import starshaped_hull as sh
 import matplotlib.pyplot as plt
@@ -30,7 +30,7 @@ class ObstacleCluster:
 
     def polygon_excluding_hull(self):
         if self._polygon_excluding_hull is None:
-            self._polygon_excluding_hull = shapely.ops.unary_union([o.polygon() for o in self.obstacles])
+            self._polygon_excluding_hull = polygon_union([o.polygon() for o in self.obstacles])
         return self._polygon_excluding_hull
 
     def draw(self, ax=None):
diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index b74b0e0..cbf15c6 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Polygon
-from utils import Cone, convex_hull
+from utils import Cone, convex_hull, polygon_union
 
 
 def admissible_kernel(obstacle, x):
@@ -25,7 +25,7 @@ def kernel_starshaped_hull(obstacles, kernel_points):
             print(obstacles)
 
     sub_pols = [kernel_starshaped_hull(o, kernel_points) for o in obstacles]
-    hull_polygon = shapely.ops.unary_union(sub_pols)
+    hull_polygon = polygon_union(sub_pols)
     if hull_polygon.is_empty:
         return None
     return hull_polygon
@@ -51,4 +51,4 @@ def polygon_kernel_starshaped_hull(polygon, kernel_points):
     edge_hulls = [shapely.geometry.MultiPoint(np.vstack((kernel_points, vertices[i:i+2]))).convex_hull
                   for i in range(vertices.shape[0] - 1)]
     # Edges in line with all kernel points do not contribute
-    return shapely.ops.unary_union([polygon] + [h for h in edge_hulls if h.geom_type == 'Polygon'])
+    return polygon_union([polygon] + [h for h in edge_hulls if h.geom_type == 'Polygon'])
diff --git a/utils/cg.py b/utils/cg.py
index ae5abd5..7a3c18f 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -24,6 +24,17 @@ def affine_transform(x, rotation, translation, inverse=False):
             return np.array([x[0]+translation[0], x[1]+translation[1]])
 
 
+# Union of a list of polygons
+def polygon_union(polygons):
+    union = shapely.ops.unary_union(polygons)
+    # The overlay may lose, or separate, parts of polygons with (almost) overlapping edges
+    union_padded = union.buffer(1e-8)
+    if union.geom_type != 'Polygon' or not all([union_padded.covers(p) for p in polygons]):
+        union = shapely.unary_union(polygons, grid_size=1e-10)
+        union = union.buffer(1e-8, join_style=2).buffer(-9e-9, join_style=2)
+    return union
+
+
 # Line segment from a to b, excluding a and b
 def line(a, b):
     return shapely.geometry.LineString([a + .0001 * (b - a), a + .9999 * (b - a)])
-- 
2.43.0


From 7156bcd427c92500aed0be5b449678649210846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 42/57] fix: admissible kernel fails for points at a vertex of
 the obstacle

---
 starshaped_hull/starshaped_hull.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index cbf15c6..dfcf963 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -10,6 +10,9 @@ def admissible_kernel(obstacle, x):
     if not tps:
         # Interior point
         return None
+    if min([np.linalg.norm(x - tp) for tp in tps]) < 1e-8:
+        # Boundary point, with no tangent direction
+        return None
     return Cone(x, x-tps[0], x-tps[1])
 
 
-- 
2.43.0


From 4593478a8a029bfda074596db7fedd4955ba1160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 43/57] fix: starshaped hull of convex obstacle invalid for
 (almost) equal tangent points

---
 starshaped_hull/starshaped_hull.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index dfcf963..00a52f4 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Polygon
-from utils import Cone, convex_hull, polygon_union
+from utils import Cone, polygon_union
 
 
 def admissible_kernel(obstacle, x):
@@ -43,8 +43,8 @@ def convex_kernel_starshaped_hull(convex_obstacle, kernel_points):
 
     tps = np.unique(tps,axis=0)
     ch_points = np.vstack((tps, kernel_points))
-    pol = convex_hull(ch_points)
-    return shapely.geometry.Polygon(pol)
+    pol = shapely.geometry.MultiPoint(ch_points).convex_hull
+    return pol if pol.geom_type == 'Polygon' else shapely.geometry.Polygon([])
 
 
 # The starshaped hull of a polygon is the union of the convex hulls of the kernel points and each edge (and the polygon)
-- 
2.43.0


From a2c8682970f056fdcb0aa53d444b398ea85ae5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:19 +0000
Subject: [PATCH 44/57] fix: clusters made convex may have the robot or goal
 position on the boundary

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index aedb486..a77ee7f 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -452,7 +452,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 v = np.array(cl.polygon().exterior.coords)[:-1, :]
                 hull = ConvexHull(v)
                 hull_polygon = shapely.geometry.Polygon(v[hull.vertices, :])
-                if not any([hull_polygon.contains(shapely.geometry.Point(x_ex)) for x_ex in [x, xg]]) and not any(
+                if not any([hull_polygon.intersects(shapely.geometry.Point(x_ex)) for x_ex in [x, xg]]) and not any(
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
                     clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
-- 
2.43.0


From 88ecc132fa4c68db0ef17956f83d136c97d1cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 45/57] fix: polygons with a repeated (up to rounding) concave
 vertex are reported as convex

---
 obstacles/polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 5b57281..1eec080 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -136,6 +136,8 @@ class Polygon(Obstacle):
     # ------------ Private methods ------------ #
     def _check_convexity(self):
         v = np.asarray(self._polygon.exterior.coords)[:-1, :]
+        # Neglect (almost) repeated vertices
+        v = v[np.linalg.norm(v - np.roll(v, 1, axis=0), axis=1) > 1e-8, :]
         i = 0
         N = v.shape[0]
         # Make sure first vertice is not collinear
-- 
2.43.0


From 899533c33e7c8845bf677b03c4545cd35529d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 46/57] fix: polygon obstacles can not be created with
 compute_polygon

---
 obstacles/polygon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 1eec080..b24dc45 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -9,6 +9,7 @@ import matplotlib.patches as patches
 class Polygon(Obstacle):
 
     def __init__(self, polygon, **kwargs):
+        kwargs.pop('compute_polygon', None)  # Always computed
         super().__init__(**kwargs)
         self._polygon = shapely.geometry.Polygon(polygon)
         self._polygon = shapely.ops.orient(self._polygon)
-- 
2.43.0


From 43b021941c6278cb5c265aa06e82796740f95a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 47/57] fix: kernel is empty for polygons with repeated (up to
 rounding) vertices

---
 obstacles/starshaped_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index a3dfd15..300787d 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -192,7 +192,8 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         xk = np.asarray(shapely.geometry.box(*self._polygon.bounds).exterior.coords)[:-1, :]
         for i in range(v.shape[0] - 1):
             edge = v[i + 1, :] - v[i, :]
-            if not np.any(edge):
+            # Neglect (almost) repeated vertices
+            if np.linalg.norm(edge) < 1e-8:
                 continue
             # Signed distance from (the line through) the edge, positive to the left
             dist = (edge[0] * (xk[:, 1] - v[i, 1]) - edge[1] * (xk[:, 0] - v[i, 0])) / np.linalg.norm(edge)
-- 
2.43.0


From f432170e913123e631ac3e053d1fe80be43343f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 48/57] fix: keep the cluster id when a cluster is made convex

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index a77ee7f..9718f48 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -455,7 +455,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if not any([hull_polygon.intersects(shapely.geometry.Point(x_ex)) for x_ex in [x, xg]]) and not any(
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
-                    clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
+                    clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL), id=cl.cluster_obstacle.id())
                     clusters[j]._polygon = None  # Not valid for the convex obstacle
 
         convex_time = toc(t1)
-- 
2.43.0


From 1b118fb971857360820d230a121d55042988c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 49/57] fix: intersection of kernels lost for almost
 overlapping obstacles

---
 starshaped_hull/cluster_and_starify.py |  8 ++++----
 utils/cg.py                            | 13 +++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 9718f48..8e89d29 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Frame, StarshapedObstacle, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
-from utils import is_ccw, is_collinear, equilateral_triangle, Cone, tic, toc, draw_shapely_polygon, polygon_union
+from utils import is_ccw, is_collinear, equilateral_triangle, Cone, tic, toc, draw_shapely_polygon, polygon_union, convex_polygon_intersection
 from scipy.spatial import ConvexHull
 import starshaped_hull as sh
 import matplotlib.pyplot as plt
@@ -101,9 +101,9 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     # Try to use intersection of all obstacle kernels in cluster if all starshaped
     all_starshaped = all([o.is_starshaped() for o in cl.obstacles])
     if all_starshaped:
-        for o in cl.obstacles:
-            # A convex Polygon is its own kernel
-            tcss_tmp = tcss_tmp.intersection(o.kernel() if isinstance(o, StarshapedObstacle) else o.polygon())
+        # A convex Polygon is its own kernel
+        kernels = [o.kernel() if isinstance(o, StarshapedObstacle) else o.polygon() for o in cl.obstacles]
+        tcss_tmp = tcss_tmp.intersection(convex_polygon_intersection(kernels))
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
     # Else, try to use union of all obstacles in cluster
     if not all_starshaped or tcss_tmp.area < 1e-6:
diff --git a/utils/cg.py b/utils/cg.py
index 7a3c18f..9dbb833 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -35,6 +35,19 @@ def polygon_union(polygons):
     return union
 
 
+# Intersection of a list of convex polygons
+def convex_polygon_intersection(polygons):
+    intersection = polygons[0]
+    for p in polygons[1:]:
+        # Without grid, the overlay may lose the intersection of polygons with (almost) overlapping edges
+        intersection = shapely.intersection(intersection, p, grid_size=1e-10)
+        # Neglect isolated points and lines
+        intersection = max(getattr(intersection, 'geoms', [intersection]), key=lambda g: g.area, default=shapely.geometry.Polygon())
+        if intersection.geom_type != 'Polygon':
+            return shapely.geometry.Polygon()
+    return intersection
+
+
 # Line segment from a to b, excluding a and b
 def line(a, b):
     return shapely.geometry.LineString([a + .0001 * (b - a), a + .9999 * (b - a)])
-- 
2.43.0


From 9bcecb83e7206191480a38e0f63d232dafdcaf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 50/57] fix: degenerate kernel points when the triangle center
 is on the selection set boundary

---
 starshaped_hull/cluster_and_starify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 8e89d29..fe30aae 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -140,7 +140,8 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
         triangle_center = np.array(tc.coords[0])
 
     # For a nonconvex TCSS the centroid may be outside (or on the boundary of) the TCSS
-    if not tcss.contains(shapely.geometry.Point(triangle_center)):
+    tc = shapely.geometry.Point(triangle_center)
+    if not tcss.contains(tc) or tcss.boundary.distance(tc) < 1e-8:
         triangle_center = np.array(tcss.representative_point().coords[0])
         while is_collinear(x, xg, triangle_center):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
-- 
2.43.0


From 6280312fc1ca83c439b02a838d39f27342d2324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 51/57] fix: kernel selection fails when the selection set
 includes isolated points or lines

---
 starshaped_hull/cluster_and_starify.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index fe30aae..9d0b69a 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -83,17 +83,24 @@ def get_intersection_clusters(clusters):
     return new_clusters, intersections_exist
 
 
+# A TCSS found by set operations may include isolated points and lines
+def polygonal_part(geom):
+    if geom.geom_type in ('Polygon', 'MultiPolygon') or not hasattr(geom, 'geoms'):
+        return geom
+    return shapely.ops.unary_union([p for p in geom.geoms if p.geom_type in ('Polygon', 'MultiPolygon')])
+
+
 def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev else None
 
     t0 = tic()
     ts = {}
     # Find triangle center selection set (TCSS)
-    tcss = cl.admissible_kernel
+    tcss = polygonal_part(cl.admissible_kernel)
     # If obstacle is in exterior of workspace limit TCSS to workspace exterior
     if not cl.polygon_excluding_hull().within(workspace.polygon()):
-        tcss_tmp = tcss.difference(workspace.polygon())
-        tcss_tmp = tcss_tmp.intersection(cl.polygon_excluding_hull()) # NOTE: Added for exlcluding undesired extremas in other workspace exterior than close to obstacles
+        tcss_tmp = polygonal_part(tcss.difference(workspace.polygon()))
+        tcss_tmp = polygonal_part(tcss_tmp.intersection(cl.polygon_excluding_hull())) # NOTE: Added for exlcluding undesired extremas in other workspace exterior than close to obstacles
         if tcss_tmp.area > 1e-6:
             tcss = tcss_tmp
     tcss_tmp = tcss
@@ -112,9 +119,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     if tcss_tmp.area > 1e-6:
         tcss = tcss_tmp
 
-    # TCSS may include isolated points and lines
-    if tcss.geom_type != 'Polygon':
-        tcss = shapely.ops.unary_union([p for p in tcss.geoms if p.geom_type == 'Polygon'])
+    tcss = polygonal_part(tcss)
 
     # If not tc from previous iteraion, use closest point to TCSS in ad ker as triangle center
     if triangle_center_prev is None:
-- 
2.43.0


From 20b10d4d3df7bdd91def046f532b7598a24d9e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 52/57] fix: normals of combinations wrong when an edge is
 radial from the reference point

---
 obstacles/starshaped_primitive_combination.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 393ec07..644dc89 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -125,6 +125,8 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             if self.vertices is None:
                 self._update_vertex_angles()
             angle = np.arctan2(x[1] - self._xr[1], x[0] - self._xr[0])
+            if angle < self.vertex_angles[0]:
+                angle += 2 * np.pi
             v_idx = np.argmax(self.vertex_angles > angle)
 
             if v_idx == self.vertices.shape[0]:
@@ -214,12 +216,12 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             return [np.array([l[0], l[1]]) for g in intersection_points_shapely.geoms for l in g.coords]
 
     def _update_vertex_angles(self):
-        self.vertices = np.array(self.polygon().exterior.coords[:-1])
-        self.circular_vertices = np.array(self.polygon().exterior.coords)
+        # Counterclockwise from the smallest angle (edges might be radial, so the vertices cannot be sorted by angle)
+        self.vertices = np.array(shapely.geometry.polygon.orient(self.polygon()).exterior.coords[:-1])
         self.vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
-        idcs = np.argsort(self.vertex_angles)
-        self.vertex_angles = self.vertex_angles[idcs]
-        self.vertices = self.vertices[idcs, :]
+        first = np.argmin(self.vertex_angles)
+        self.vertices = np.roll(self.vertices, -first, axis=0)
+        self.vertex_angles = np.unwrap(np.roll(self.vertex_angles, -first))
         self.circular_vertices = np.vstack((self.vertices, self.vertices[0, :]))
         self.vertex_angles = np.hstack((self.vertex_angles, self.vertex_angles[0] + 2 * np.pi))
 
-- 
2.43.0


From 57d5f89f98a1eec3e991bbf6e666ddbdf680e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 53/57] fix: normals of starshaped polygons wrong when an edge
 is radial from the reference point

---
 obstacles/starshaped_polygon.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 300787d..d31ea32 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -67,6 +67,8 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
     def normal(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL, x_is_boundary=False, type='edge'):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
         angle = np.arctan2(x_obstacle[1]-self._xr[1], x_obstacle[0]-self._xr[0])
+        if angle < self.vertex_angles[0]:
+            angle += 2 * np.pi
         v_idx = np.argmax(self.vertex_angles > angle)
 
         if v_idx == self.vertices.shape[0]:
@@ -175,10 +177,12 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
             line_handles[2].set_data(*self.xr(frame))
 
     def _update_vertex_angles(self):
+        # Counterclockwise from the smallest angle (edges might be radial, so the vertices cannot be sorted by angle)
+        self.vertices = np.array(shapely.geometry.polygon.orient(self._polygon).exterior.coords[:-1])
         self.vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
-        idcs = np.argsort(self.vertex_angles)
-        self.vertex_angles = self.vertex_angles[idcs]
-        self.vertices = self.vertices[idcs, :]
+        first = np.argmin(self.vertex_angles)
+        self.vertices = np.roll(self.vertices, -first, axis=0)
+        self.vertex_angles = np.unwrap(np.roll(self.vertex_angles, -first))
         self.circular_vertices = np.vstack((self.vertices, self.vertices[0, :]))
         self.vertex_angles = np.hstack((self.vertex_angles, self.vertex_angles[0] + 2 * np.pi))
 
-- 
2.43.0


From 082e579dac70fcd48709efc3cdb702e9111e3d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 54/57] fix: drawing a polygon with limits fails when its
 visible part consists of several polygons

---
 utils/misc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/misc.py b/utils/misc.py
index 05e09b0..4eefa0b 100644
--- a/utils/misc.py
+++ b/utils/misc.py
@@ -30,8 +30,12 @@ def draw_shapely_polygon(pol, ax=None, xlim=None, ylim=None, **kwargs):
             pol_plot = p.intersection(shapely.geometry.box(xlim[0] - 1, ylim[0] - 1, xlim[1] + 1, ylim[1] + 1))
         else:
             pol_plot = p
-        handles += [patches.Polygon(xy=np.vstack((pol_plot.exterior.xy[0], pol_plot.exterior.xy[1])).T, **kwargs)]
-        ax.add_patch(handles[-1])
+        # The visible part of a polygon may be empty or consist of several polygons
+        for pp in getattr(pol_plot, 'geoms', [pol_plot]):
+            if pp.geom_type != 'Polygon' or pp.is_empty:
+                continue
+            handles += [patches.Polygon(xy=np.vstack((pp.exterior.xy[0], pp.exterior.xy[1])).T, **kwargs)]
+            ax.add_patch(handles[-1])
         if xlim is not None:
             ax.set_xlim(xlim)
         if ylim is not None:
-- 
2.43.0


From 3f992e867b270fb2ccd6a53057cd522aad77f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 55/57] fix: clustering does not end when the robot is at the
 goal position

---
 starshaped_hull/cluster_and_starify.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 9d0b69a..41c846a 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -93,6 +93,10 @@ def polygonal_part(geom):
 def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev else None
 
+    def on_x_xg_line(p):
+        # There is no line if the positions coincide
+        return np.linalg.norm(np.subtract(xg, x)) > 1e-6 and is_collinear(x, xg, p)
+
     t0 = tic()
     ts = {}
     # Find triangle center selection set (TCSS)
@@ -125,11 +129,11 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     if triangle_center_prev is None:
         tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, tcss.centroid)
         triangle_center = np.array(tc.coords[0])
-        while is_collinear(x, xg, triangle_center):
+        while on_x_xg_line(triangle_center):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
     # Else, use previous triangle center if still in selection set
     elif tcss.contains(shapely.geometry.Point(triangle_center_prev))\
-            and not is_collinear(x, xg, triangle_center_prev):
+            and not on_x_xg_line(triangle_center_prev):
         triangle_center = triangle_center_prev
     # Else, try to maintain triangle center on same side of l(x,xg) as previous time step
     else:
@@ -148,7 +152,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     tc = shapely.geometry.Point(triangle_center)
     if not tcss.contains(tc) or tcss.boundary.distance(tc) < 1e-8:
         triangle_center = np.array(tcss.representative_point().coords[0])
-        while is_collinear(x, xg, triangle_center):
+        while on_x_xg_line(triangle_center):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
 
     ts['tc selection'] = toc(t0)-list(ts.values())[-1]
-- 
2.43.0


From 32a2c85a36edbc4a3804c1919cbd16e0d518a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 56/57] fix: waypoints given as an array are shifted by the
 initial position

---
 obstacles/motion_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index fe7521d..afa92b6 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -98,7 +98,7 @@ class Interval(MotionModel):
 class Waypoints(MotionModel):
 
     def __init__(self, init_pos, waypoints, vel, wp_thresh=0.2):
-        self.waypoints = np.array([init_pos] + waypoints)
+        self.waypoints = np.array([init_pos] + list(waypoints))
         self.vel = vel
         self._wp_idx = 0
         self.wp_thresh = wp_thresh
-- 
2.43.0


From ad6b2b58e79efd2ba7471736ff4cc79434ec7953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 57/57] fix: tangent points of a combination neglect the hull

---
 obstacles/starshaped_primitive_combination.py | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 644dc89..fe347f8 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
-from obstacles import Frame, StarshapedObstacle, StarshapedPolygon
-from utils import is_ccw, is_cw, draw_shapely_polygon, polygon_union
+from obstacles import Frame, StarshapedObstacle, Polygon, StarshapedPolygon
+from utils import draw_shapely_polygon, polygon_union
 import matplotlib.pyplot as plt
 
 # Note: Local == Global frame
@@ -43,16 +43,18 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         intersection_points += self._hull_cluster_line_intersections(line)
         return intersection_points
 
-    # TODO: Fix if needed. Currently not considering hull.
     def tangent_points(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
-        tp, tp_candidates = [], []
-        for obs in self._obstacle_cluster:
-            tp_candidates += obs.tangent_points(x, Frame.GLOBAL, Frame.GLOBAL)
-        for i in range(len(tp_candidates)):
-            if all([is_ccw(x, tp_candidates[i], tp_candidates[j]) for j in range(len(tp_candidates)) if j is not i]) or \
-                    all([is_cw(x, tp_candidates[i], tp_candidates[j]) for j in range(len(tp_candidates)) if j is not i]):
-                tp += [tp_candidates[i]]
-        return tp
+        tps = [obs.tangent_points(x, Frame.GLOBAL, Frame.GLOBAL) for obs in self._obstacle_cluster]
+        if self._hull_cluster is not None and not self._hull_cluster.is_empty:
+            tps += [Polygon(self._hull_cluster, id='temp').tangent_points(x)]
+        if not all(tps):
+            # Interior point
+            return []
+        # Candidates with extreme directions, relative to the direction of the reference point
+        tp_candidates = [tp for part_tps in tps for tp in part_tps]
+        xr_dir = self._xr - x
+        angles = [np.arctan2(xr_dir[0] * d[1] - xr_dir[1] * d[0], np.dot(xr_dir, d)) for d in np.subtract(tp_candidates, x)]
+        return [tp_candidates[np.argmax(angles)], tp_candidates[np.argmin(angles)]]
 
     def _compute_kernel(self):
         self._kernel = StarshapedPolygon(self.polygon(), xr=self.xr(), id="temp").kernel()
-- 
2.43.0

