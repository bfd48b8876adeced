From bd62011eaccba41782e73a58796b8b1dd9813b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 01/33] fix: copies of a Vector2D keep its validity flag

---
 src/pyrusgeom/vector_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 45ccb98..b420eec 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -55,6 +55,7 @@ class Vector2D:
             elif len(args) == 1 and isinstance(args[0], Vector2D):
                 self._x = args[0].x()
                 self._y = args[0].y()
+                self._is_valid = args[0].is_valid()
             elif len(args) == 0:
                 self._x = 0
                 self._y = 0
@@ -110,7 +111,7 @@ class Vector2D:
         Returns:
            Vector2D: Copy of this Vector 2D
         """
-        return Vector2D(self._x, self._y)
+        return Vector2D(self)
 
     def get_copy(self) -> Vector2D:
         """returns copy of this Vector2D
-- 
2.43.0


From 8f96eb79f4564bb9713415e5b41cbc43392aa155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:02 +0000
Subject: [PATCH 02/33] fix: Rect2D built from two corners spans them instead
 of being zeroed

---
 src/pyrusgeom/rect_2d.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index b631ea4..c2b66ec 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -90,12 +90,7 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-                self._is_valid = True
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
-                self._is_valid = True
+            self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
@@ -158,10 +153,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
-- 
2.43.0


From a4758f591a9ef74caac76d92b9581335b4d8035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:04 +0000
Subject: [PATCH 03/33] fix: Rect2D.assign with four numbers uses the given
 length

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index c2b66ec..77b1ddb 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -138,7 +138,7 @@ class Rect2D(Region2D):
 
         if len(args) == 4:
             self._top_left.assign(args[0], args[1])
-            self._size.assign(args[0], args[3])
+            self._size.assign(args[2], args[3])
         elif len(args) == 3:
             self._top_left = Vector2D(args[0])
             self._size.assign(args[1], args[2])
-- 
2.43.0


From dd738f4389e00a2f30579f5728e2a402dabc0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:05 +0000
Subject: [PATCH 04/33] fix: Rect2D.contains_almost calls the coordinate
 accessors

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 77b1ddb..998feca 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -526,8 +526,8 @@ class Rect2D(Region2D):
         Returns:
             bool: True if it almost contains it. else False.
         """
-        return self.left() - error_thr <= point.x <= self.right() + error_thr and \
-            self.top() - error_thr <= point.y <= self.bottom() + error_thr
+        return self.left() - error_thr <= point.x() <= self.right() + error_thr and \
+            self.top() - error_thr <= point.y() <= self.bottom() + error_thr
 
     def left(self) -> float:
         """get the left x coordinate of this rectangle.
-- 
2.43.0


From 4de0dc53e81269ff32decd235929522f48bfce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:07 +0000
Subject: [PATCH 05/33] fix: Rect2D keeps its own copy of a given size

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 998feca..f2f0c40 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -93,7 +93,7 @@ class Rect2D(Region2D):
             self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
             self._is_valid = True
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
@@ -155,7 +155,7 @@ class Rect2D(Region2D):
                 self._top_left.set_y(bottom_right.y())
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
             self._size = args[0].size()
-- 
2.43.0


From e37b38d045400519eb78f482dcb22e3f642c8a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:33 +0000
Subject: [PATCH 06/33] fix: Rect2D.intersected leaves its operands alone and
 returns an empty rectangle when there is no overlap

---
 src/pyrusgeom/rect_2d.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index f2f0c40..89603bc 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -764,23 +764,18 @@ class Rect2D(Region2D):
         Returns:
             [Rect2D]: rectangle instance
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
         left = max(self.left(), other.left())
         top = max(self.top(), other.top())
-        width = min(self.right(), other.right()) - left
-        length = min(self.bottom(), other.bottom()) - top
+        length = min(self.right(), other.right()) - left
+        width = min(self.bottom(), other.bottom()) - top
 
         if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
-
-        return self
+        return Rect2D(left, top, length, width)
 
     def united(self, other:Rect2D) -> Rect2D:
         """get the united rectangle of self rectangle and the other rectangle.
-- 
2.43.0


From 9bd0e78715353a01d3520905becfbe97bbb41379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:35 +0000
Subject: [PATCH 07/33] fix: Rect2D.united returns the rectangle covering both
 operands

---
 src/pyrusgeom/rect_2d.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 89603bc..e1af746 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -786,23 +786,15 @@ class Rect2D(Region2D):
         Returns:
             Rect2D: rectangle instance.
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-        self._size.assign(0.0, 0.0)
-
-        left = max(self.left(), other.left())
-        top = max(self.top(), other.top())
-        width = min(self.right(), other.right()) - left
-        length = min(self.bottom(), other.bottom()) - top
-
-        if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
+        left = min(self.left(), other.left())
+        top = min(self.top(), other.top())
+        length = max(self.right(), other.right()) - left
+        width = max(self.bottom(), other.bottom()) - top
 
-        return self
+        return Rect2D(left, top, length, width)
 
     @staticmethod
     def from_center(*args)->Rect2D:
-- 
2.43.0


From 63f0690dadc3bcad5884308d8b59e885bae76df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:36 +0000
Subject: [PATCH 08/33] fix: Rect2D.from_center accepts a center point

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index e1af746..f388bf1 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -822,7 +822,7 @@ class Rect2D(Region2D):
         if len(args) == 4:
             return Rect2D(args[0] - args[2] * 0.5, args[1] - args[3] * 0.5, args[2], args[3])
         if len(args) == 3:
-            return Rect2D(args[0] - args[1] * 0.5, args[0] - args[2] * 0.5, args[1], args[2])
+            return Rect2D(args[0].x() - args[1] * 0.5, args[0].y() - args[2] * 0.5, args[1], args[2])
         raise Exception("Input must be 4 float or one vector and two float")
 
     def __repr__(self) -> str:
-- 
2.43.0


From 98faffa3d42958487081eac747baa06ffed44178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:38 +0000
Subject: [PATCH 09/33] fix: Rect2D() builds an empty rectangle, as
 Polygon2D.get_bounding_box expects

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index f388bf1..40ae572 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -99,7 +99,7 @@ class Rect2D(Region2D):
             self._top_left = args[0].top_left()
             self._size = args[0].size()
             self._is_valid = args[0].is_valid()
-        else:
+        elif len(args) != 0:
             raise Exception("The input must be (4 float) or \
             (vector2d and 2 float) or (vector2d and size2d) or (2 vector2d) or (1 rect2d)")
 
-- 
2.43.0


From dee28d2fe792d8766ada30854434bb619f5fe94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:40 +0000
Subject: [PATCH 10/33] fix: Rect2D.intersection finds both points of a line
 through a corner

---
 src/pyrusgeom/rect_2d.py | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 40ae572..f47c216 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -704,35 +704,24 @@ class Rect2D(Region2D):
             list[Vector2D]: intersection Points
         """
         if isinstance(other, Line2D):
-            n_sol = 0
-            t_sol = [Vector2D(0, 0), Vector2D(0, 0)]
             left_x = self.left()
             right_x = self.right()
             top_y = self.top()
             bottom_y = self.bottom()
-            t_sol[n_sol] = self.left_edge().intersection(other) # n_sol 0
-            if t_sol[n_sol].is_valid() and top_y <= t_sol[n_sol].y() <= bottom_y:
-                n_sol += 1
-            t_sol[n_sol] = self.right_edge().intersection(other) # n_sol 0 1
-            if n_sol < 2 and t_sol[n_sol].is_valid() and top_y <= t_sol[n_sol].y() <= bottom_y:
-                n_sol += 1
-            if n_sol < 2:
-                t_sol[n_sol] = self.top_edge().intersection(other) # n_sol 0-1 2
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
-                    n_sol += 1
-            if n_sol < 2:
-                t_sol[n_sol] = self.bottom_edge().intersection(other) # n_sol 0-2 3
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
-                    n_sol += 1
-            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
-                    t_sol[0].y() - t_sol[1].y()) < EPSILON:
-                n_sol = 1
-            if n_sol == 0:
-                sol_list = []
-            elif n_sol == 1:
-                sol_list = [t_sol[0]]
-            else:
-                sol_list = [t_sol[0], t_sol[1]]
+            t_sol = []
+            for edge in (self.left_edge(), self.right_edge()):
+                sol = edge.intersection(other)
+                if sol.is_valid() and top_y <= sol.y() <= bottom_y:
+                    t_sol.append(sol)
+            for edge in (self.top_edge(), self.bottom_edge()):
+                sol = edge.intersection(other)
+                if sol.is_valid() and left_x <= sol.x() <= right_x:
+                    t_sol.append(sol)
+            sol_list = []
+            for sol in t_sol: # a corner belongs to two edges
+                if len(sol_list) < 2 and not any(math.fabs(sol.x() - prev.x()) < EPSILON and
+                                                 math.fabs(sol.y() - prev.y()) < EPSILON for prev in sol_list):
+                    sol_list.append(sol)
             return sol_list
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
-- 
2.43.0


From 6c0a7f4f550f2f17e177fb6a86272357e7f95f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:19 +0000
Subject: [PATCH 11/33] fix: AngleDeg supports in-place division (__idiv__ is
 never called by Python 3)

---
 src/pyrusgeom/angle_deg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index cc1f687..0338e58 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -264,7 +264,7 @@ class AngleDeg:
         self.normal()
         return self
 
-    def __idiv__(self, other: Union[float, int]) -> AngleDeg:
+    def __itruediv__(self, other: Union[float, int]) -> AngleDeg:
         """operator /=
 
         Args:
-- 
2.43.0


From 8d50b5fff1b2cf0bb3031d2da037cc0eb8352073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:20 +0000
Subject: [PATCH 12/33] fix: Vector2D in-place division changes the vector
 itself like the other in-place operators

---
 src/pyrusgeom/vector_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index b420eec..b24c643 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -576,7 +576,7 @@ class Vector2D:
         self._y *= other
         return self
 
-    def __idiv__(self, other: Union[int, float]) -> Vector2D:
+    def __itruediv__(self, other: Union[int, float]) -> Vector2D:
         self._x /= other
         self._y /= other
         return self
-- 
2.43.0


From 2531c5cd254e03e22bd9e870283aa2e221233799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:22 +0000
Subject: [PATCH 13/33] fix: the origin of a Ray2D is on the ray whatever its
 direction

---
 src/pyrusgeom/ray_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyrusgeom/ray_2d.py b/src/pyrusgeom/ray_2d.py
index 535ad4c..574e60a 100644
--- a/src/pyrusgeom/ray_2d.py
+++ b/src/pyrusgeom/ray_2d.py
@@ -104,6 +104,8 @@ class Ray2D:
         Returns:
             bool: true if it is on the direction. else false.
         """
+        if point.equals_weakly(self._origin):
+            return True
         return ((point - self._origin).th() - self._direction).abs() < thr
 
     def intersection(self, other: Union[Line2D, Ray2D]) -> Vector2D:
-- 
2.43.0


From aea11ccc1527a4b537cb26054ff9b6c1748588db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:23 +0000
Subject: [PATCH 14/33] fix: Segment2D.projection and nearest_point return a
 new point, not the stored end point

---
 src/pyrusgeom/segment_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index d37bf8a..4213a6d 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -284,7 +284,7 @@ class Segment2D:
         length = direction.r()
 
         if length < EPSILON:
-            return self._origin
+            return Vector2D(self._origin)
 
         direction /= length  # normalize
 
@@ -450,15 +450,15 @@ class Segment2D:
         len_square = vec_tmp.r2()
 
         if len_square == 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         inner_product = vec_tmp.inner_product((point - self._origin))
 
         if inner_product <= 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         if inner_product >= len_square:
-            return self._terminal
+            return Vector2D(self._terminal)
 
         return self._origin + vec_tmp * inner_product / len_square
 
-- 
2.43.0


From e0dc671048d727af0aa03eff6b22e846b3a5a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:25 +0000
Subject: [PATCH 15/33] fix: Segment2D.on_segment compares both coordinates
 when the segment is a single point

---
 src/pyrusgeom/segment_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index 4213a6d..87ab48b 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -519,6 +519,8 @@ class Segment2D:
         Returns:
             float: True if point is on this segment. else False.
         """
+        if self._origin == self._terminal:
+            return point == self._origin
         return Triangle2D.double_signed_area_st(self._origin, self._terminal, point) == 0.0 \
             and self.check_intersects_on_line(point)
 
-- 
2.43.0


From 195433819c6c8e9257e2c5218db66f8215214dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:26 +0000
Subject: [PATCH 16/33] fix: Sector2D keeps its smaller radius

---
 src/pyrusgeom/sector_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index b8b8679..0bb73b6 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -44,7 +44,7 @@ class Sector2D(Region2D):
         super().__init__()
 
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
@@ -62,7 +62,7 @@ class Sector2D(Region2D):
             end (Union[AngleDeg, float]): end angle(turn clockwise)
         """
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
-- 
2.43.0


From 76bacf29a7dcc02cd25f49079976a5218ad92013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:28 +0000
Subject: [PATCH 17/33] fix: Sector2D.radius_max returns the bigger radius

---
 src/pyrusgeom/sector_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index 0bb73b6..6cd1c6b 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -97,7 +97,7 @@ class Sector2D(Region2D):
         Returns:
             float: the big side radius
         """
-        return self._min_r
+        return self._max_r
 
     def angle_left_start(self) -> AngleDeg:
         """get the left start angle copy
-- 
2.43.0


From 731a845d03f60cb673aeb0e911d832ed080bd1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:30 +0000
Subject: [PATCH 18/33] fix: Triangle2D.is_valid compares the third vertex with
 the first

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index a78f218..e581640 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -105,7 +105,7 @@ class Triangle2D(Region2D):
             bool: True if triangle is valid. else False.
         """
         return (self._a.is_valid() and self._b.is_valid() and self._c.is_valid() and
-                self._a != self._b and self._b != self._c and self._a != self._a)
+                self._a != self._b and self._b != self._c and self._c != self._a)
 
     def a(self) -> Vector2D:
         """get 1st point copy
-- 
2.43.0


From 7a9e78be5d8ac00ff535e9f1a90a776538db2cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:31 +0000
Subject: [PATCH 19/33] fix: Triangle2D.tri_centroid does not raise

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index e581640..0635d23 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -384,7 +384,7 @@ class Triangle2D(Region2D):
         Returns:
             Vector2D: coordinates of gravity center
         """
-        return Vector2D(v_a).add(v_b).add(v_c) / 3.0
+        return (v_a + v_b + v_c) / 3.0
 
     @staticmethod
     def tri_incenter(v_a: Vector2D, v_b: Vector2D, v_c: Vector2D) -> Vector2D:
-- 
2.43.0


From 5c9a411ce40d74a39699f62929ffd9a45ef383ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:04 +0000
Subject: [PATCH 20/33] fix: Matrix2D multiplication does not change its left
 operand

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 478ff06..3ba35b3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -343,7 +343,7 @@ class Matrix2D:
         if isinstance(other, Vector2D):
             return self.transform(other)
         if isinstance(other, Matrix2D):
-            mat_tmp = self
+            mat_tmp = Matrix2D(self._m11, self._m12, self._m21, self._m22, self._dx, self._dy)
             return mat_tmp.__imul__(other)
         return self
 
-- 
2.43.0


From 1fbb94cfbb5180d2c54e34db5a22ca1f11a851c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:05 +0000
Subject: [PATCH 21/33] fix: Matrix2D equality compares the horizontal
 translation with its counterpart

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 3ba35b3..dd569f3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -362,7 +362,7 @@ class Matrix2D:
 
         return self._m11 == other.m11() and self._m12 == other.m12() and\
             self._m21 == other.m21() and self._m22 == other.m22() and\
-            self._dx == other.dytf() and self._dy == other.dytf()
+            self._dx == other.dxtf() and self._dy == other.dytf()
 
 
     def __repr__(self):
-- 
2.43.0


From 590e18007ecf85c0743d3a399c946d4c9ee1beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:07 +0000
Subject: [PATCH 22/33] fix: wind_effect uses the wind vector it computes

---
 src/pyrusgeom/soccer_math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyrusgeom/soccer_math.py b/src/pyrusgeom/soccer_math.py
index 7acf000..3338dae 100644
--- a/src/pyrusgeom/soccer_math.py
+++ b/src/pyrusgeom/soccer_math.py
@@ -384,8 +384,7 @@ def wind_effect(speed: float, weight: float,
     Returns:
         Vector2D: wind effect acceleration
     """
-    wind_vec = Vector2D()
-    wind_vec.polar2vector(wind_force, wind_dir)
+    wind_vec = Vector2D.polar2vector(wind_force, wind_dir)
 
     if wind_error:
         wind_error.assign(speed * wind_vec.x() * wind_rand
-- 
2.43.0


From 10c8a7f1c6c8c574ac354cd788d5e21157652ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:08 +0000
Subject: [PATCH 23/33] fix: Line2D equality compares whole equations, so that
 x = 1 and x = -1 differ

---
 src/pyrusgeom/line_2d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/line_2d.py b/src/pyrusgeom/line_2d.py
index c11557f..181df28 100644
--- a/src/pyrusgeom/line_2d.py
+++ b/src/pyrusgeom/line_2d.py
@@ -291,8 +291,9 @@ class Line2D:
         Returns:
             bool: true if equal or difference is less than EPSILON. else false
         """
-        return (math.fabs(self._a * other.b() - other.a() * self._b)
-                < EPSILON and self._c == other.c())
+        return (math.fabs(self._a * other.b() - other.a() * self._b) < EPSILON
+                and math.fabs(self._b * other.c() - other.b() * self._c) < EPSILON
+                and math.fabs(self._c * other.a() - other.c() * self._a) < EPSILON)
 
     def __repr__(self) -> str:
         """represent Line2D as a string
-- 
2.43.0


From 107a75595c94d15f708ddba82e07000fa059b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:37 +0000
Subject: [PATCH 24/33] fix: Polygon2D keeps its own copies of the given points

---
 src/pyrusgeom/polygon_2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 66d4b9b..eed1777 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -147,7 +147,7 @@ class Polygon2D(Region2D):
         if len(args) == 0:
             self._vertices = [Vector2D()]
         elif isinstance(args[0], list):
-            self._vertices = args[0].copy()
+            self._vertices = [point.copy() for point in args[0]]
         else:
             for item in args:
                 if isinstance(item,Vector2D):
@@ -166,7 +166,7 @@ class Polygon2D(Region2D):
             Polygon2D: rturn itself
         """
         if len(points) > 0:
-            self._vertices = points.copy()
+            self._vertices = [point.copy() for point in points]
         return self
 
     def add_vertex(self, point: Vector2D) -> None:
@@ -175,7 +175,7 @@ class Polygon2D(Region2D):
         Args:
             point(Vector2d): point to add
         """
-        self._vertices.append(point)
+        self._vertices.append(point.copy())
 
     def vertices(self) -> list[Vector2D]:
         """get a copy list from the vertex container
-- 
2.43.0


From f68550f493be87032ca8b2bbc0058a3ebded94fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:38 +0000
Subject: [PATCH 25/33] fix: Polygon2D.contains treats every point of the
 outline as allow_on_segment asks

---
 src/pyrusgeom/polygon_2d.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index eed1777..275046c 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -258,11 +258,8 @@ class Polygon2D(Region2D):
             p_0 = self._vertices[i]
             p_1 = self._vertices[p1_index]
 
-            if not allow_on_segment and Segment2D(p_0, p_1).on_segment(point):
-                return False
-
-            if allow_on_segment and point == p_0:
-                return True
+            if Segment2D(p_0, p_1).on_segment(point):
+                return allow_on_segment
 
             if line.exist_intersection(Segment2D(p_0, p_1)):
                 if p_0.y() == point.y() or p_1.y() == point.y():
-- 
2.43.0


From c1011b67b52a5cbfd000d8c0da1cccc3bd93cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:40 +0000
Subject: [PATCH 26/33] fix: ConvexHull does not reorder, truncate or clear the
 caller's list

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 9c5fd3d..5ff28c6 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -137,7 +137,7 @@ class ConvexHull:
             point_list: array of input points
 
         """
-        self._input_points = point_list
+        self._input_points = list(point_list)
         self._vertices = []
         self._edges = []
 
-- 
2.43.0


From 169b536bfec4722d1029a0bb7873ab02d8de65a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:41 +0000
Subject: [PATCH 27/33] fix: ConvexHull wrapping method includes the first edge

---
 src/pyrusgeom/convex_hull.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 5ff28c6..6cd5183 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -353,10 +353,9 @@ class ConvexHull:
 
             if current_index == min_index:
                 break
-        for i in range(len(self._vertices)):
-            if self._vertices[i] != self._vertices[-1]:
-                self._edges.append(
-                    Segment2D(self._vertices[i], self._vertices[i + 1]))
+        for i in range(len(self._vertices) - 1):
+            self._edges.append(
+                Segment2D(self._vertices[i], self._vertices[i + 1]))
 
         self._vertices.pop()
 
-- 
2.43.0


From 970c864acc87572353b75dc46f346beb37e92374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:43 +0000
Subject: [PATCH 28/33] fix: ConvexHull wrapping method copes with repeated
 points

---
 src/pyrusgeom/convex_hull.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 6cd5183..83bdfe2 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -325,13 +325,15 @@ class ConvexHull:
         for _ in range(point_size + 1):
             candidate = 0
             for i in range(point_size):
-                if i == current_index or i in vertices_index:
+                if i == current_index or i in vertices_index or \
+                        self._input_points[i] == current_point:
                     continue
 
                 candidate = i
                 break
             for i in range(candidate + 1, point_size):
-                if i == current_index or i in vertices_index:
+                if i == current_index or i in vertices_index or \
+                        self._input_points[i] == current_point:
                     continue
 
                 point_first:Vector2D = self._input_points[candidate]
-- 
2.43.0


From cd6e9871f9e5f45e8019a27fd301c5ccc29cbb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:49 +0000
Subject: [PATCH 29/33] fix: ConvexHull Graham scan sorts around its lowest
 point and keeps the input points

---
 src/pyrusgeom/convex_hull.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 83bdfe2..e25e9f2 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -374,7 +374,7 @@ class ConvexHull:
 
         self.sort_points_angle_from(min_index)
 
-        self._vertices = self._input_points
+        self._vertices = self._input_points.copy()
 
         top = 1
         for i in range(2, point_size):
@@ -422,7 +422,7 @@ class ConvexHull:
         return min_index
 
     def sort_points_angle_from(self, index):
-        """sort points by anlge from base(0,0)
+        """sort points by anlge from the point at index
         """
         if len(self._input_points) <= index:
             return
@@ -431,8 +431,9 @@ class ConvexHull:
         self._input_points[0] = self._input_points[index]
         self._input_points[index] = tmp
 
-        # base is (0,0)
-        self._input_points.sort(key=functools.cmp_to_key(angle_sort_predicate))
+        base = self._input_points[0]
+        self._input_points[1:] = sorted(self._input_points[1:], key=functools.cmp_to_key(
+            lambda lhs, rhs: angle_sort_predicate(lhs, rhs, base)))
 
     def to_polygon(self) -> Polygon2D:
         """create and get the convex hull polygon
-- 
2.43.0


From 9bd2afbee34e1cec8f0ff6275cebf66adaafc12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:18 +0000
Subject: [PATCH 30/33] fix: Triangle2D.intersection handles every line, ray
 and segment

---
 src/pyrusgeom/triangle_2d.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 0635d23..2039d1c 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -270,32 +270,29 @@ class Triangle2D(Region2D):
         param segment considered line segment.
         return number of intersection + sol 1 + sol 2
         """
+        from pyrusgeom.segment_2d import Segment2D
         if isinstance(other, Line2D):
             n_sol = 0
             t_sol = [Vector2D(), Vector2D()]
-            from pyrusgeom.segment_2d import Segment2D
-            t_sol[n_sol] = Segment2D(self._a, self._b).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
+            for edge in (Segment2D(self._a, self._b),
+                         Segment2D(self._b, self._c),
+                         Segment2D(self._c, self._a)):
+                sol = edge.intersection(other)
+                if n_sol == 2 or not sol.is_valid():
+                    continue
+                # a line through a vertex meets two edges at the same point
+                if n_sol == 1 and math.fabs(t_sol[0].x() - sol.x()) < EPSILON and math.fabs(
+                        t_sol[0].y() - sol.y()) < EPSILON:
+                    continue
+                t_sol[n_sol] = sol
                 n_sol += 1
-
-            t_sol[n_sol] = Segment2D(self._b, self._c).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            t_sol[n_sol] = Segment2D(self._c, self._a).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
-                    t_sol[0].y() - t_sol[1].y()) < EPSILON:
-                n_sol = 1
             sol_list = [n_sol, t_sol[0], t_sol[1]]
 
             return sol_list
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
 
-            if n_sol[0] > 1 and not other.in_right_dir(n_sol[1], 1.0):
+            if n_sol[0] > 1 and not other.in_right_dir(n_sol[2], 1.0):
                 n_sol[0] -= 1
 
             if n_sol[0] > 0 and not other.in_right_dir(n_sol[1], 1.0):
@@ -310,7 +307,7 @@ class Triangle2D(Region2D):
             if n_sol[0] > 1 and not other.contains(n_sol[2]):
                 n_sol[0] -= 1
 
-            if n_sol > 0 and not other.contains(n_sol[1]):
+            if n_sol[0] > 0 and not other.contains(n_sol[1]):
                 n_sol[1] = n_sol[2]
                 n_sol[0] -= 1
 
-- 
2.43.0


From 43296c2fb5d2fd72037231c0b7146d974ba3d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:40 +0000
Subject: [PATCH 31/33] fix: ConvexHull wrapping method steps to the farthest
 of several points on one edge

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index e25e9f2..21d075b 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -346,7 +346,7 @@ class ConvexHull:
                     candidate = i
 
                 elif (area < EPSILON and
-                        current_point.dist2(point_first) > current_point.dist2(point_second)):
+                        current_point.dist2(point_first) < current_point.dist2(point_second)):
                     candidate = i
             current_index = candidate
             current_point = self._input_points[current_index]
-- 
2.43.0


From ac0f0bdd9077793ba2139c51c258b0d2d528823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:12 +0000
Subject: [PATCH 32/33] fix: Polygon2D clipping keeps the rest of the outline
 when an edge runs along the clip line

---
 src/pyrusgeom/polygon_2d.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 275046c..2c9fef6 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -444,17 +444,14 @@ class Polygon2D(Region2D):
                 else:
                     cuted = line.intersection(Line2D(p_0, p_1))
 
-                    if not cuted.is_valid():
-                        return new_points
-                    new_points.append(cuted)
+                    if cuted.is_valid():
+                        new_points.append(cuted)
             else:
                 if in_rectangle[index_1]:
                     cuted = line.intersection(Line2D(p_0, p_1))
 
-                    if not cuted.is_valid():
-                        return new_points
-
-                    new_points.append(cuted)
+                    if cuted.is_valid():
+                        new_points.append(cuted)
                     new_points.append(p_1)
         return new_points
 
-- 
2.43.0


From c0ff979e7951ce7b40a4a42ec188663e92b5ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:36 +0000
Subject: [PATCH 33/33] fix: bisect of two opposite directions is the middle of
 the arc from left to right

AngleDeg.bisect(90, -90) was 180 although bisect(89.9, -89.9) is 0, and
bisect(0, -180) differed from bisect(0, 180), the same two directions.
---
 src/pyrusgeom/angle_deg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index 0338e58..2cc8b7b 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -534,7 +534,7 @@ class AngleDeg:
         diff = result.degree() - AngleDeg(right).degree()
         half_deg = rel.degree() * 0.5
         result += half_deg
-        if (0.0 < diff < 180.0) or diff < -180.0:
+        if (0.0 < diff <= 180.0) or diff < -180.0:
             return result
         return result + 180.0
 
-- 
2.43.0

