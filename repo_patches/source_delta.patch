From 99f62ddda0346c5eafccabb0cbd2d9649277f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:14 +0000
Subject: [PATCH 01/30] fix: Matrix2D * Matrix2D no longer overwrites its left
 operand

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 478ff06..3ba35b3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -343,7 +343,7 @@ class Matrix2D:
         if isinstance(other, Vector2D):
             return self.transform(other)
         if isinstance(other, Matrix2D):
-            mat_tmp = self
+            mat_tmp = Matrix2D(self._m11, self._m12, self._m21, self._m22, self._dx, self._dy)
             return mat_tmp.__imul__(other)
         return self
 
-- 
2.43.0


From 95cecd447ebee60aa8f2a1c33bba1257b626df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:17 +0000
Subject: [PATCH 02/30] fix: Matrix2D.__eq__ compares the x translation with
 the x translation

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 3ba35b3..dd569f3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -362,7 +362,7 @@ class Matrix2D:
 
         return self._m11 == other.m11() and self._m12 == other.m12() and\
             self._m21 == other.m21() and self._m22 == other.m22() and\
-            self._dx == other.dytf() and self._dy == other.dytf()
+            self._dx == other.dxtf() and self._dy == other.dytf()
 
 
     def __repr__(self):
-- 
2.43.0


From a185f3bd2adcd33134ca69ccdcfb519acb677564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:20 +0000
Subject: [PATCH 03/30] fix: Rect2D built or assigned from two corner points
 spans those points

---
 src/pyrusgeom/rect_2d.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index b631ea4..63404d8 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -90,12 +90,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-                self._is_valid = True
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
-                self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
@@ -158,10 +152,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
-- 
2.43.0


From 1729eaeacac84a36350a93e05363d0994cc19f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:23 +0000
Subject: [PATCH 04/30] fix: Rect2D.assign(left, top, length, width) uses the
 given length

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 63404d8..41be470 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -137,7 +137,7 @@ class Rect2D(Region2D):
 
         if len(args) == 4:
             self._top_left.assign(args[0], args[1])
-            self._size.assign(args[0], args[3])
+            self._size.assign(args[2], args[3])
         elif len(args) == 3:
             self._top_left = Vector2D(args[0])
             self._size.assign(args[1], args[2])
-- 
2.43.0


From d200dc1db4df44bc78e40694b3b747f4b8ed5971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:26 +0000
Subject: [PATCH 05/30] fix: Rect2D.from_center accepts a center point

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 41be470..e6b60d2 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -834,7 +834,7 @@ class Rect2D(Region2D):
         if len(args) == 4:
             return Rect2D(args[0] - args[2] * 0.5, args[1] - args[3] * 0.5, args[2], args[3])
         if len(args) == 3:
-            return Rect2D(args[0] - args[1] * 0.5, args[0] - args[2] * 0.5, args[1], args[2])
+            return Rect2D(args[0].x() - args[1] * 0.5, args[0].y() - args[2] * 0.5, args[1], args[2])
         raise Exception("Input must be 4 float or one vector and two float")
 
     def __repr__(self) -> str:
-- 
2.43.0


From bf28d3f88a827da2cbedd6e520bfa0b60befff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:29 +0000
Subject: [PATCH 06/30] fix: Rect2D.contains_almost reads the coordinates of
 the point

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index e6b60d2..1bfd45c 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -525,8 +525,8 @@ class Rect2D(Region2D):
         Returns:
             bool: True if it almost contains it. else False.
         """
-        return self.left() - error_thr <= point.x <= self.right() + error_thr and \
-            self.top() - error_thr <= point.y <= self.bottom() + error_thr
+        return self.left() - error_thr <= point.x() <= self.right() + error_thr and \
+            self.top() - error_thr <= point.y() <= self.bottom() + error_thr
 
     def left(self) -> float:
         """get the left x coordinate of this rectangle.
-- 
2.43.0


From 6ad4bc9fa82df439fbd01ca635bf130510b984c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:32 +0000
Subject: [PATCH 07/30] fix: Rect2D.intersected returns the overlap, empty when
 there is none, and keeps its operands

---
 src/pyrusgeom/rect_2d.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 1bfd45c..8b29c43 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -763,9 +763,8 @@ class Rect2D(Region2D):
         Returns:
             [Rect2D]: rectangle instance
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
         left = max(self.left(), other.left())
         top = max(self.top(), other.top())
@@ -773,13 +772,9 @@ class Rect2D(Region2D):
         length = min(self.bottom(), other.bottom()) - top
 
         if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
-
-        return self
+        return Rect2D(left, top, width, length)
 
     def united(self, other:Rect2D) -> Rect2D:
         """get the united rectangle of self rectangle and the other rectangle.
-- 
2.43.0


From a52254da5560231cbb9d126ab888a981d5b33288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:35 +0000
Subject: [PATCH 08/30] fix: Rect2D.united returns the smallest rectangle
 covering both operands and keeps them

---
 src/pyrusgeom/rect_2d.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 8b29c43..003fd1d 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -785,23 +785,15 @@ class Rect2D(Region2D):
         Returns:
             Rect2D: rectangle instance.
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-        self._size.assign(0.0, 0.0)
-
-        left = max(self.left(), other.left())
-        top = max(self.top(), other.top())
-        width = min(self.right(), other.right()) - left
-        length = min(self.bottom(), other.bottom()) - top
-
-        if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
+        left = min(self.left(), other.left())
+        top = min(self.top(), other.top())
+        width = max(self.right(), other.right()) - left
+        length = max(self.bottom(), other.bottom()) - top
 
-        return self
+        return Rect2D(left, top, width, length)
 
     @staticmethod
     def from_center(*args)->Rect2D:
-- 
2.43.0


From fab8daeb2ab9f61fbb027a349da4101c38ec8dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:38 +0000
Subject: [PATCH 09/30] fix: Rect2D copies the Size2D it is built or assigned
 from

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 003fd1d..4ee7d78 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -92,7 +92,7 @@ class Rect2D(Region2D):
                 self._top_left.set_y(bottom_right.y())
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
             self._is_valid = True
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
@@ -154,7 +154,7 @@ class Rect2D(Region2D):
                 self._top_left.set_y(bottom_right.y())
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
             self._size = args[0].size()
-- 
2.43.0


From 23848da997aa44327e14482bd6d177e5b2b2f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:41 +0000
Subject: [PATCH 10/30] fix: Rect2D.intersection keeps the second crossing of a
 line through a top corner

---
 src/pyrusgeom/rect_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 4ee7d78..f128d84 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -717,7 +717,8 @@ class Rect2D(Region2D):
                 n_sol += 1
             if n_sol < 2:
                 t_sol[n_sol] = self.top_edge().intersection(other) # n_sol 0-1 2
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
+                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x \
+                        and not (n_sol == 1 and t_sol[0].equals_weakly(t_sol[1])):
                     n_sol += 1
             if n_sol < 2:
                 t_sol[n_sol] = self.bottom_edge().intersection(other) # n_sol 0-2 3
-- 
2.43.0


From 8ef63394d620dee5dc6efda056cf7d7d7cd41004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:44 +0000
Subject: [PATCH 11/30] fix: Sector2D keeps a positive inner radius

---
 src/pyrusgeom/sector_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index b8b8679..0bb73b6 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -44,7 +44,7 @@ class Sector2D(Region2D):
         super().__init__()
 
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
@@ -62,7 +62,7 @@ class Sector2D(Region2D):
             end (Union[AngleDeg, float]): end angle(turn clockwise)
         """
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
-- 
2.43.0


From 14ff339e885b2a5d081c076244a2b00b69ffb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:47 +0000
Subject: [PATCH 12/30] fix: Sector2D.radius_max returns the outer radius

---
 src/pyrusgeom/sector_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index 0bb73b6..6cd1c6b 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -97,7 +97,7 @@ class Sector2D(Region2D):
         Returns:
             float: the big side radius
         """
-        return self._min_r
+        return self._max_r
 
     def angle_left_start(self) -> AngleDeg:
         """get the left start angle copy
-- 
2.43.0


From 256a7962813a504906a09c4f98e0782773fa9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:22 +0000
Subject: [PATCH 13/30] fix: Triangle2D.is_valid accepts three distinct valid
 vertices

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index a78f218..441ffe9 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -105,7 +105,7 @@ class Triangle2D(Region2D):
             bool: True if triangle is valid. else False.
         """
         return (self._a.is_valid() and self._b.is_valid() and self._c.is_valid() and
-                self._a != self._b and self._b != self._c and self._a != self._a)
+                self._a != self._b and self._b != self._c and self._a != self._c)
 
     def a(self) -> Vector2D:
         """get 1st point copy
-- 
2.43.0


From 774a0936dc1aaf51bb79181e28f3bca2f60a0485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:25 +0000
Subject: [PATCH 14/30] fix: Triangle2D.tri_centroid no longer chains
 Vector2D.add, which returns None

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 441ffe9..d7f0db9 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -384,7 +384,7 @@ class Triangle2D(Region2D):
         Returns:
             Vector2D: coordinates of gravity center
         """
-        return Vector2D(v_a).add(v_b).add(v_c) / 3.0
+        return (v_a + v_b + v_c) / 3.0
 
     @staticmethod
     def tri_incenter(v_a: Vector2D, v_b: Vector2D, v_c: Vector2D) -> Vector2D:
-- 
2.43.0


From 4e3150e107f1fed4168fa6b6864a12334debe561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:28 +0000
Subject: [PATCH 15/30] fix: Triangle2D.intersection works for lines crossing
 two edges, rays and segments

---
 src/pyrusgeom/triangle_2d.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index d7f0db9..f1efc9c 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -270,21 +270,23 @@ class Triangle2D(Region2D):
         param segment considered line segment.
         return number of intersection + sol 1 + sol 2
         """
+        from pyrusgeom.segment_2d import Segment2D
         if isinstance(other, Line2D):
             n_sol = 0
             t_sol = [Vector2D(), Vector2D()]
-            from pyrusgeom.segment_2d import Segment2D
             t_sol[n_sol] = Segment2D(self._a, self._b).intersection(other)
             if n_sol < 2 and t_sol[n_sol].is_valid():
                 n_sol += 1
 
             t_sol[n_sol] = Segment2D(self._b, self._c).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
+            if n_sol < 2 and t_sol[n_sol].is_valid() and \
+                    not (n_sol == 1 and t_sol[0].equals_weakly(t_sol[1])):
                 n_sol += 1
 
-            t_sol[n_sol] = Segment2D(self._c, self._a).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
+            if n_sol < 2:
+                t_sol[n_sol] = Segment2D(self._c, self._a).intersection(other)
+                if t_sol[n_sol].is_valid():
+                    n_sol += 1
 
             if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
                     t_sol[0].y() - t_sol[1].y()) < EPSILON:
@@ -295,7 +297,7 @@ class Triangle2D(Region2D):
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
 
-            if n_sol[0] > 1 and not other.in_right_dir(n_sol[1], 1.0):
+            if n_sol[0] > 1 and not other.in_right_dir(n_sol[2], 1.0):
                 n_sol[0] -= 1
 
             if n_sol[0] > 0 and not other.in_right_dir(n_sol[1], 1.0):
@@ -310,7 +312,7 @@ class Triangle2D(Region2D):
             if n_sol[0] > 1 and not other.contains(n_sol[2]):
                 n_sol[0] -= 1
 
-            if n_sol > 0 and not other.contains(n_sol[1]):
+            if n_sol[0] > 0 and not other.contains(n_sol[1]):
                 n_sol[1] = n_sol[2]
                 n_sol[0] -= 1
 
-- 
2.43.0


From 234cd01085d05c3fe37cefa2a12393d64c32a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:31 +0000
Subject: [PATCH 16/30] fix: wind_effect uses the wind vector it computes

---
 src/pyrusgeom/soccer_math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyrusgeom/soccer_math.py b/src/pyrusgeom/soccer_math.py
index 7acf000..3338dae 100644
--- a/src/pyrusgeom/soccer_math.py
+++ b/src/pyrusgeom/soccer_math.py
@@ -384,8 +384,7 @@ def wind_effect(speed: float, weight: float,
     Returns:
         Vector2D: wind effect acceleration
     """
-    wind_vec = Vector2D()
-    wind_vec.polar2vector(wind_force, wind_dir)
+    wind_vec = Vector2D.polar2vector(wind_force, wind_dir)
 
     if wind_error:
         wind_error.assign(speed * wind_vec.x() * wind_rand
-- 
2.43.0


From 5bc2a4cbf88e2eeee9beb9cb9af2483f9c40ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 17/30] fix: Segment2D.projection and nearest_point return
 points of their own

---
 src/pyrusgeom/segment_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index d37bf8a..4213a6d 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -284,7 +284,7 @@ class Segment2D:
         length = direction.r()
 
         if length < EPSILON:
-            return self._origin
+            return Vector2D(self._origin)
 
         direction /= length  # normalize
 
@@ -450,15 +450,15 @@ class Segment2D:
         len_square = vec_tmp.r2()
 
         if len_square == 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         inner_product = vec_tmp.inner_product((point - self._origin))
 
         if inner_product <= 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         if inner_product >= len_square:
-            return self._terminal
+            return Vector2D(self._terminal)
 
         return self._origin + vec_tmp * inner_product / len_square
 
-- 
2.43.0


From ab5839ba524198b31358936bd4e0dc3ad747ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:13 +0000
Subject: [PATCH 18/30] fix: Vector2D /= scalar divides in place like +=, -=
 and *=

---
 src/pyrusgeom/vector_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 45ccb98..4b68e01 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -575,7 +575,7 @@ class Vector2D:
         self._y *= other
         return self
 
-    def __idiv__(self, other: Union[int, float]) -> Vector2D:
+    def __itruediv__(self, other: Union[int, float]) -> Vector2D:
         self._x /= other
         self._y /= other
         return self
-- 
2.43.0


From ec4561446e481209ae7b0d4c0b234b0ed9487ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:16 +0000
Subject: [PATCH 19/30] fix: AngleDeg /= scalar works (Python 3 never calls
 __idiv__)

---
 src/pyrusgeom/angle_deg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index cc1f687..0338e58 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -264,7 +264,7 @@ class AngleDeg:
         self.normal()
         return self
 
-    def __idiv__(self, other: Union[float, int]) -> AngleDeg:
+    def __itruediv__(self, other: Union[float, int]) -> AngleDeg:
         """operator /=
 
         Args:
-- 
2.43.0


From cb470957ad99b218efce7ff3c7bea0771cd08a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:19 +0000
Subject: [PATCH 20/30] fix: a copy of an invalid Vector2D is invalid

---
 src/pyrusgeom/vector_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 4b68e01..b24c643 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -55,6 +55,7 @@ class Vector2D:
             elif len(args) == 1 and isinstance(args[0], Vector2D):
                 self._x = args[0].x()
                 self._y = args[0].y()
+                self._is_valid = args[0].is_valid()
             elif len(args) == 0:
                 self._x = 0
                 self._y = 0
@@ -110,7 +111,7 @@ class Vector2D:
         Returns:
            Vector2D: Copy of this Vector 2D
         """
-        return Vector2D(self._x, self._y)
+        return Vector2D(self)
 
     def get_copy(self) -> Vector2D:
         """returns copy of this Vector2D
-- 
2.43.0


From 22ffafb48a368fe0ef20a751a87e85db6ecb4b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:22 +0000
Subject: [PATCH 21/30] fix: Polygon2D holds and hands out its own copies of
 the vertices

---
 src/pyrusgeom/polygon_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 66d4b9b..7bd6033 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -147,7 +147,7 @@ class Polygon2D(Region2D):
         if len(args) == 0:
             self._vertices = [Vector2D()]
         elif isinstance(args[0], list):
-            self._vertices = args[0].copy()
+            self._vertices = [point.copy() for point in args[0]]
         else:
             for item in args:
                 if isinstance(item,Vector2D):
@@ -166,7 +166,7 @@ class Polygon2D(Region2D):
             Polygon2D: rturn itself
         """
         if len(points) > 0:
-            self._vertices = points.copy()
+            self._vertices = [point.copy() for point in points]
         return self
 
     def add_vertex(self, point: Vector2D) -> None:
@@ -175,7 +175,7 @@ class Polygon2D(Region2D):
         Args:
             point(Vector2d): point to add
         """
-        self._vertices.append(point)
+        self._vertices.append(point.copy())
 
     def vertices(self) -> list[Vector2D]:
         """get a copy list from the vertex container
@@ -183,7 +183,7 @@ class Polygon2D(Region2D):
         Returns:
             list: a list with the vertex container values
         """
-        vertices_cp = self._vertices.copy()
+        vertices_cp = [point.copy() for point in self._vertices]
         return vertices_cp
 
     def vertices_(self) -> list:
-- 
2.43.0


From ef58812011b21ad93681e2a9ea3b992a9809bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:24 +0000
Subject: [PATCH 22/30] fix: the bounding box of a polygon without vertices is
 the empty rectangle

---
 src/pyrusgeom/polygon_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 7bd6033..60f81de 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -201,7 +201,7 @@ class Polygon2D(Region2D):
             bounding box of this polygon
         """
         if len(self._vertices) == 0:
-            return Rect2D()
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
         x_min = float("inf")
         x_max = - float("inf")
         y_min = float("inf")
-- 
2.43.0


From d2fbcd5ed94e6a864b0df5eeb0d0c9a3f016a1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:27 +0000
Subject: [PATCH 23/30] fix: ConvexHull keeps its input points apart from the
 caller's list and from the result

---
 src/pyrusgeom/convex_hull.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 9c5fd3d..e25299c 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -137,7 +137,7 @@ class ConvexHull:
             point_list: array of input points
 
         """
-        self._input_points = point_list
+        self._input_points = list(point_list)
         self._vertices = []
         self._edges = []
 
@@ -373,7 +373,7 @@ class ConvexHull:
 
         self.sort_points_angle_from(min_index)
 
-        self._vertices = self._input_points
+        self._vertices = self._input_points.copy()
 
         top = 1
         for i in range(2, point_size):
-- 
2.43.0


From 53265d072a1464388086b6c85654eb7382fd21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:04 +0000
Subject: [PATCH 24/30] fix: the gift-wrapping hull lists its first edge

---
 src/pyrusgeom/convex_hull.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index e25299c..7e3b882 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -353,10 +353,9 @@ class ConvexHull:
 
             if current_index == min_index:
                 break
-        for i in range(len(self._vertices)):
-            if self._vertices[i] != self._vertices[-1]:
-                self._edges.append(
-                    Segment2D(self._vertices[i], self._vertices[i + 1]))
+        for i in range(len(self._vertices) - 1):
+            self._edges.append(
+                Segment2D(self._vertices[i], self._vertices[i + 1]))
 
         self._vertices.pop()
 
-- 
2.43.0


From 955c4b82fc804e61f36d568beff0379ecaab3e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:19 +0000
Subject: [PATCH 25/30] fix: the Graham scan sorts around its pivot instead of
 the origin

---
 src/pyrusgeom/convex_hull.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 7e3b882..10b998e 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -429,8 +429,11 @@ class ConvexHull:
         self._input_points[0] = self._input_points[index]
         self._input_points[index] = tmp
 
-        # base is (0,0)
-        self._input_points.sort(key=functools.cmp_to_key(angle_sort_predicate))
+        base = self._input_points[0]
+        self._input_points[1:] = sorted(
+            self._input_points[1:],
+            key=functools.cmp_to_key(
+                lambda lhs, rhs: angle_sort_predicate(lhs, rhs, base)))
 
     def to_polygon(self) -> Polygon2D:
         """create and get the convex hull polygon
-- 
2.43.0


From e16e0a18d21b1f8cf155ca0d03e3d9eca0a6ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:07 +0000
Subject: [PATCH 26/30] fix: polygon containment with allow_on_segment missed
 points on left and upper edges

---
 src/pyrusgeom/polygon_2d.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 60f81de..825b75d 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -258,11 +258,8 @@ class Polygon2D(Region2D):
             p_0 = self._vertices[i]
             p_1 = self._vertices[p1_index]
 
-            if not allow_on_segment and Segment2D(p_0, p_1).on_segment(point):
-                return False
-
-            if allow_on_segment and point == p_0:
-                return True
+            if Segment2D(p_0, p_1).on_segment(point):
+                return allow_on_segment
 
             if line.exist_intersection(Segment2D(p_0, p_1)):
                 if p_0.y() == point.y() or p_1.y() == point.y():
-- 
2.43.0


From e5bf66265c546e0e2848c1920bb60492fcf49289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:03 +0000
Subject: [PATCH 27/30] fix: to_str of circles, segments and triangles returns
 the text it builds

---
 src/pyrusgeom/circle_2d.py   | 3 ++-
 src/pyrusgeom/segment_2d.py  | 3 ++-
 src/pyrusgeom/triangle_2d.py | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/circle_2d.py b/src/pyrusgeom/circle_2d.py
index 43fd684..a92dc0b 100644
--- a/src/pyrusgeom/circle_2d.py
+++ b/src/pyrusgeom/circle_2d.py
@@ -298,7 +298,7 @@ class Circle2D:
         """
         return f"({self._center} , {self._radius})"
 
-    def to_str(self, ostr: str) -> None:
+    def to_str(self, ostr: str) -> str:
         """add circle to the ostr
 
         Args:
@@ -306,6 +306,7 @@ class Circle2D:
         """
         ostr += f'(circle {round(self.center().x(), 3)} \
             {round(self.center().y(), 3)} {round(self.radius(), 3)})'
+        return ostr
 
 
 def quadratic_f(qf_a: float, qf_b: float, qf_c: float) -> list[float]:
diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index 4213a6d..09705b9 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -542,7 +542,7 @@ class Segment2D:
         """
         return f"[{self._origin},{self._terminal}]"
 
-    def to_str(self, ostr: str) -> None:
+    def to_str(self, ostr: str) -> str:
         """add segment to the ostr
 
         Args:
@@ -550,3 +550,4 @@ class Segment2D:
         """
         ostr += f' (line {round(self.origin().x(), 3)} {round(self.origin().y(), 3)} \
             {round(self.terminal().x(), 3)} {round(self.terminal().y(), 3)})'
+        return ostr
diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index f1efc9c..33a7a95 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -514,3 +514,4 @@ class Triangle2D(Region2D):
         """
         ostr += f'(tri {round(self.a().x(), 3)} {round(self.a().y(), 3)} {round(self.b().x(), 3)} \
         {round(self.b().y(), 3)} {round(self.c().x(), 3)} {round(self.c().y(), 3)})'
+        return ostr
-- 
2.43.0


From b6213fe69267a1b51a19036ef887246d05c829d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:03 +0000
Subject: [PATCH 28/30] fix: Rect2D.to_str writes the right side without a
 stray letter

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index f128d84..8c24b55 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -840,5 +840,5 @@ class Rect2D(Region2D):
             ostr (str): str to add to it
         """
         ostr += f'(rect {round(self.left(), 3)} {round(self.top(), 3)} \
-            f{round(self.right(), 3)} {round(self.bottom(), 3)})'
+            {round(self.right(), 3)} {round(self.bottom(), 3)})'
         return ostr
-- 
2.43.0


From 5af20c0e1a350a8847e17bacc67471b81d82fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:25 +0000
Subject: [PATCH 29/30] fix: a Sector2D with two negative radii has no extent

---
 src/pyrusgeom/sector_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index 6cd1c6b..19585d9 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -45,7 +45,7 @@ class Sector2D(Region2D):
 
         self._center = Vector2D(center)
         self._min_r = max(0.0, min_r)
-        self._max_r = max(min_r, max_r)
+        self._max_r = max(self._min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
         self.is_valid = True
@@ -63,7 +63,7 @@ class Sector2D(Region2D):
         """
         self._center = Vector2D(center)
         self._min_r = max(0.0, min_r)
-        self._max_r = max(min_r, max_r)
+        self._max_r = max(self._min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
 
-- 
2.43.0


From c388ff54c6cd5c06a0e1eb7aa2335d490c82d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:56 +0000
Subject: [PATCH 30/30] fix: gift wrapping passes over points on an edge to the
 far corner

Going to the nearest of the points on a line, the walk could turn back to its
start from a point on the first edge and miss the corner behind it, and it
stopped at once at a second copy of the start.
---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 10b998e..b76b5cd 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -344,7 +344,7 @@ class ConvexHull:
                     candidate = i
 
                 elif (area < EPSILON and
-                        current_point.dist2(point_first) > current_point.dist2(point_second)):
+                        current_point.dist2(point_first) < current_point.dist2(point_second)):
                     candidate = i
             current_index = candidate
             current_point = self._input_points[current_index]
-- 
2.43.0

