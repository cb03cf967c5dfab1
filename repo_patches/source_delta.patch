From fffbe60c732374ec6925dea3ea737e03466bf497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 01/13] fix: CursorIter length after exhaustion and direction
 of next_back

len() and size_hint() reported 1 after the iterator was exhausted, and
next_back() moved the tail cursor forwards instead of backwards.
---
 src/data/polygon/iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 0186f3a..602390c 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -97,6 +97,9 @@ impl<'a, T> Iterator for CursorIter<'a, T> {
 
 impl<T> ExactSizeIterator for CursorIter<'_, T> {
   fn len(&self) -> usize {
+    if self.exhausted {
+      return 0;
+    }
     let pos_head = self.cursor_head.position;
     let pos_tail = self.cursor_tail.position;
     if pos_head.position_id.0 <= pos_tail.position_id.0 {
@@ -116,7 +119,7 @@ impl<T> DoubleEndedIterator for CursorIter<'_, T> {
       if out == self.cursor_head {
         self.exhausted = true;
       } else {
-        self.cursor_tail.move_next();
+        self.cursor_tail.move_prev();
       }
       Some(out)
     }
-- 
2.43.0


From 2ba35a0cb94a9c812e445853c7817187195810e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 02/13] fix: PolygonConvex::locate on internal diagonals

Points on the internal diagonal that bounds the final triangle of the binary
search were reported to be on the boundary of the polygon.
---
 src/data/polygon/convex.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/data/polygon/convex.rs b/src/data/polygon/convex.rs
index 8678c42..5fe5363 100644
--- a/src/data/polygon/convex.rs
+++ b/src/data/polygon/convex.rs
@@ -58,7 +58,19 @@ where
     let p1 = poly.point(vertices[lower]);
     let p2 = poly.point(vertices[upper]);
     let triangle = TriangleView::new_unchecked([p0, p1, p2]);
-    triangle.locate(pt)
+    match triangle.locate(pt) {
+      // The edge from p0 to p2 is an internal diagonal unless p2 is the last vertex. Points on
+      // such a diagonal, excluding its end points, are inside the polygon.
+      PointLocation::OnBoundary
+        if upper + 1 < vertices.len()
+          && pt != p0
+          && pt != p2
+          && Point::orient(p0, p2, pt) == Orientation::CoLinear =>
+      {
+        PointLocation::Inside
+      }
+      location => location,
+    }
   }
 
   /// Validates the following properties:
-- 
2.43.0


From bff09917924652123f896df93b5c2826b3c71378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 03/13] fix: Cursor::is_ear for triangles

The vertices of a triangle are all ears. The range of the remaining vertices
wrapped around the whole polygon, so the corner itself blocked the ear.
---
 src/data/polygon.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/polygon.rs b/src/data/polygon.rs
index af4ccfe..64bd653 100644
--- a/src/data/polygon.rs
+++ b/src/data/polygon.rs
@@ -718,6 +718,10 @@ impl<'a, T> Cursor<'a, T> {
     let trig =
       TriangleView::new_unchecked([self.prev().point(), self.point(), self.next().point()]);
     if trig.orientation() == Orientation::CounterClockWise {
+      // In a triangle there are no other vertices that could block the ear.
+      if self.next().next().position == self.prev().position {
+        return true;
+      }
       for pt in self.next().next().to(Excluded(self.prev())) {
         if trig.locate(pt.point()) != PointLocation::Outside {
           return false;
-- 
2.43.0


From b9e366e4a2d45f30c6f1e198dcc71b2a466ff844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:55 +0000
Subject: [PATCH 04/13] fix: intersection of single-point line segments

A single-point segment was reported to overlap segments it does not touch: any
two points are colinear with a segment whose end points coincide.
---
 src/data/line_segment.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data/line_segment.rs b/src/data/line_segment.rs
index f0a49a5..5259a4e 100644
--- a/src/data/line_segment.rs
+++ b/src/data/line_segment.rs
@@ -299,7 +299,12 @@ where
     //   inner_between(self.min.inner(), other.min.as_ref(), other.max.as_ref()),
     //   inner_between(self.max.inner(), other.min.as_ref(), other.max.as_ref()),
     // );
-    if l1_to_b1 == CoLinear && l1_to_b2 == CoLinear {
+    // If one of the segments is a single point then its end points are colinear with everything.
+    if l1_to_b1 == CoLinear
+      && l1_to_b2 == CoLinear
+      && l2_to_a1 == CoLinear
+      && l2_to_a2 == CoLinear
+    {
       let c_min = self.min.rightmost(other.min);
       let c_max = self.max.leftmost(other.max);
       let order = c_min.inner().cmp(c_max.inner());
-- 
2.43.0


From 5e9618eda2bd1298a496fde6f189c667a466a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 05/13] fix: gift wrapping with a duplicated leftmost point

The walk was only stopped at the index of the leftmost point. It went on forever
(or returned a degenerate polygon) when it reached a copy of that point instead.
---
 src/algorithms/convex_hull/gift_wrapping.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/gift_wrapping.rs b/src/algorithms/convex_hull/gift_wrapping.rs
index c43b60d..4e389ac 100644
--- a/src/algorithms/convex_hull/gift_wrapping.rs
+++ b/src/algorithms/convex_hull/gift_wrapping.rs
@@ -106,7 +106,8 @@ where
     }
 
     p = q;
-    if p == leftmost {
+    // Compare points rather than indices: The leftmost point may be duplicated.
+    if pts[p] == pts[leftmost] {
       break;
     }
   }
-- 
2.43.0


From b901f9650c3dc62f50cd868a5f882215db949ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 06/13] fix: monotone polygon with points on the line between
 the extremes

If all other points were to the left of the line from the least to the greatest
point then points on that line ended up on the wrong chain and the result was
rejected as self-intersecting.
---
 src/algorithms/polygonization/monotone.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithms/polygonization/monotone.rs b/src/algorithms/polygonization/monotone.rs
index f59210d..131d4eb 100644
--- a/src/algorithms/polygonization/monotone.rs
+++ b/src/algorithms/polygonization/monotone.rs
@@ -75,11 +75,18 @@ where
     points.last().unwrap().clone(),
   );
 
+  // Points on the line between the extremes go with the clockwise chain if it would otherwise be
+  // a straight edge. That edge would run through them if they were part of the other chain.
+  let straight_edge = !points
+    .iter()
+    .any(|pt| Orientation::new(&min_point, &max_point, pt).is_cw());
+
   let mut polygon_points: VecDeque<Point<T, 2>> = VecDeque::new();
 
   while let Some(curr) = points.pop() {
     match Orientation::new(&min_point, &max_point, &curr) {
       Orientation::ClockWise => polygon_points.push_front(curr),
+      Orientation::CoLinear if straight_edge => polygon_points.push_front(curr),
       _ => polygon_points.push_back(curr),
     }
   }
-- 
2.43.0


From b4366923ccdced105f860858ca3b11361f090b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 07/13] fix: Melkman's algorithm visits vertices in boundary
 order

The vertices were visited in storage order, which is not a simple chain for
polygons whose vertices have been reordered (eg. by two_opt_moves). The resulting
hull could miss vertices.
---
 src/algorithms/convex_hull/melkman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/melkman.rs b/src/algorithms/convex_hull/melkman.rs
index e2879d9..cc4b1fd 100644
--- a/src/algorithms/convex_hull/melkman.rs
+++ b/src/algorithms/convex_hull/melkman.rs
@@ -15,7 +15,8 @@ where
 {
   let mut convex_hull: VecDeque<&Point<T, 2>> = VecDeque::new();
   let mut last_idx = 0;
-  for p in polygon.iter() {
+  // The points have to be visited in boundary order, which may differ from their storage order.
+  for p in polygon.iter_boundary().map(|cursor| cursor.point()) {
     // Creat a deque with the first 3 points
     if convex_hull.len() < 2 {
       convex_hull.push_back(p);
-- 
2.43.0


From 9bff2a9f6e1d679d608112bbe2d8b3fee04a9789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:28 +0000
Subject: [PATCH 08/13] fix: intersection point of lines given by a vector

---
 src/data/line.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/data/line.rs b/src/data/line.rs
index 5d74ee5..3fba606 100644
--- a/src/data/line.rs
+++ b/src/data/line.rs
@@ -36,17 +36,19 @@ impl<'a, T, const N: usize> Line<'a, T, N> {
 }
 
 impl<T: PolygonScalar> Line<'_, T> {
+  // Any point on the line that's different from the origin.
+  fn second_point(&self) -> [T; 2] {
+    match self.direction {
+      Direction::Through(pt) => pt.array.clone(),
+      Direction::Vector(vector) => (self.origin + vector).array,
+    }
+  }
+
   pub fn intersection_point(&self, other: &Self) -> Option<Point<T>> {
     let [x1, y1] = self.origin.array.clone();
-    let [x2, y2] = match &self.direction {
-      Direction::Through(pt) => pt.array.clone(),
-      _ => unimplemented!(),
-    };
+    let [x2, y2] = self.second_point();
     let [x3, y3] = other.origin.array.clone();
-    let [x4, y4] = match &other.direction {
-      Direction::Through(pt) => pt.array.clone(),
-      _ => unimplemented!(),
-    };
+    let [x4, y4] = other.second_point();
     let denom: T = (x1.clone() - x2.clone()) * (y3.clone() - y4.clone())
       - (y1.clone() - y2.clone()) * (x3.clone() - x4.clone());
     if denom == T::from_constant(0) {
-- 
2.43.0


From 24bf9388ff752555da44b37a9b3ff1c00f1819bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 09/13] fix: Point::all_colinear with a duplicated first point

---
 src/data/point.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/data/point.rs b/src/data/point.rs
index cdc17b0..ffa607f 100644
--- a/src/data/point.rs
+++ b/src/data/point.rs
@@ -303,12 +303,13 @@ impl<T: PolygonScalar> Point<T> {
   }
 
   pub fn all_colinear(pts: &[Point<T>]) -> bool {
-    if pts.len() < 3 {
-      return true;
+    // Two distinct points are needed to determine a line.
+    match pts.iter().find(|pt| **pt != pts[0]) {
+      None => true,
+      Some(other) => pts
+        .iter()
+        .all(|pt| Point::orient(&pts[0], other, pt).is_colinear()),
     }
-    pts
-      .iter()
-      .all(|pt| Point::orient(&pts[0], &pts[1], pt).is_colinear())
   }
 
   /// Docs?
-- 
2.43.0


From 6963e5880fe77f656346526863738c46765080aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 10/13] fix: perpendicular slope comparison for rug::Integer

The perpendicular of (x, y) is (-y, x); the x coordinate was added instead of
subtracted, so orient_along_perp_vector mirrored its answer.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d98de17..fa9943c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -461,7 +461,7 @@ impl PolygonScalar for rug::Integer {
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
   fn cmp_perp_vector_slope(vector: &[Self; 2], p: &[Self; 2], q: &[Self; 2]) -> std::cmp::Ordering {
-    let new_x = rug::Integer::from(&p[0] + &vector[1]);
+    let new_x = rug::Integer::from(&p[0] - &vector[1]);
     let new_y = rug::Integer::from(&p[1] + &vector[0]);
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
-- 
2.43.0


From 34b6d6941f36a121a5d761dd1f145be8df72243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 11/13] fix: exact orientation for f64 coordinates of extreme
 magnitude

orient2d is only exact while its intermediate products neither overflow nor
underflow; (0,0), (1e-200,0), (0,1e-200) was reported as colinear. Fall back to
rational arithmetic when a coordinate is outside the safe range.
---
 src/lib.rs | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fa9943c..a4bac4c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -307,18 +307,11 @@ macro_rules! wrapped_floating_precision {
       // quickly compute the orientation of three 2D points. This is about 10x-50x slower
       // than the inexact version.
       fn cmp_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> std::cmp::Ordering {
-        let orient = geometry_predicates::predicates::orient2d(
+        float_cmp_slope(
           [p[0].into_inner() as f64, p[1].into_inner() as f64],
           [q[0].into_inner() as f64, q[1].into_inner() as f64],
           [r[0].into_inner() as f64, r[1].into_inner() as f64],
-        );
-        if orient > 0.0 {
-          Ordering::Greater
-        } else if orient < 0.0 {
-          Ordering::Less
-        } else {
-          Ordering::Equal
-        }
+        )
       }
       // FIXME: Use `geometry_predicates` to speed up calculation. Right now we're
       // roughly 100x slower than necessary.
@@ -369,18 +362,11 @@ macro_rules! floating_precision {
       // quickly compute the orientation of three 2D points. This is about 10x-50x slower
       // than the inexact version.
       fn cmp_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> std::cmp::Ordering {
-        let orient = geometry_predicates::predicates::orient2d(
+        float_cmp_slope(
           [p[0] as f64, p[1] as f64],
           [q[0] as f64, q[1] as f64],
           [r[0] as f64, r[1] as f64],
-        );
-        if orient > 0.0 {
-          Ordering::Greater
-        } else if orient < 0.0 {
-          Ordering::Less
-        } else {
-          Ordering::Equal
-        }
+        )
       }
       // FIXME: Use `geometry_predicates` to speed up calculation. Right now we're
       // roughly 100x slower than necessary.
@@ -467,6 +453,28 @@ impl PolygonScalar for rug::Integer {
   }
 }
 
+// `orient2d` gives the exact sign as long as no intermediate product overflows or underflows.
+// Coordinates of extreme magnitude take the slow path.
+fn float_cmp_slope(p: [f64; 2], q: [f64; 2], r: [f64; 2]) -> Ordering {
+  let coords = [p[0], p[1], q[0], q[1], r[0], r[1]];
+  let extreme = |c: f64| c != 0.0 && !(1e-90..=1e120).contains(&c.abs());
+  if coords.iter().any(|c| extreme(*c)) && coords.iter().all(|c| c.is_finite()) {
+    return PolygonScalar::cmp_slope(
+      &p.map(float_to_rational),
+      &q.map(float_to_rational),
+      &r.map(float_to_rational),
+    );
+  }
+  let orient = geometry_predicates::predicates::orient2d(p, q, r);
+  if orient > 0.0 {
+    Ordering::Greater
+  } else if orient < 0.0 {
+    Ordering::Less
+  } else {
+    Ordering::Equal
+  }
+}
+
 fn float_to_rational(f: impl num::traits::float::FloatCore) -> num::BigRational {
   num::BigRational::from_float(f).expect("cannot convert NaN or infinite to exact precision number")
 }
-- 
2.43.0


From 9325e8a87be0504886ead6ba9752c9f9e7d0d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 12/13] fix: visibility polygon of vertices that lie in the
 same direction

Two vertices behind one another share a ray. The intersections were recorded once per vertex and could
end up in the wrong order, so that the result was not a simple polygon and constructing it panicked.
Visit the vertices of one direction once, nearest first.
---
 src/algorithms/visibility/naive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/visibility/naive.rs b/src/algorithms/visibility/naive.rs
index 55aa6f0..549d108 100644
--- a/src/algorithms/visibility/naive.rs
+++ b/src/algorithms/visibility/naive.rs
@@ -95,7 +95,13 @@ where
 {
   // FIXME: We want to iterate over all vertices, not just boundary vertices.
   let mut vertices: Vec<Cursor<'_, T>> = polygon.iter_boundary().collect();
-  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));
+  vertices.sort_by(|a, b| {
+    point
+      .ccw_cmp_around(a, b)
+      .then_with(|| point.cmp_distance_to(a, b))
+  });
+  // Vertices in the same direction share a ray, and the nearest one decides what is visible.
+  vertices.dedup_by(|b, a| point.ccw_cmp_around(a, b) == Ordering::Equal);
 
   let mut polygon_points = Vec::new();
   for vertex in vertices {
-- 
2.43.0


From a77165861c9f3990e98c37b2630d05a3542504ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 13/13] fix: no visibility polygon for a point outside that the
 polygon surrounds

---
 src/algorithms/visibility/naive.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithms/visibility/naive.rs b/src/algorithms/visibility/naive.rs
index 549d108..e212c4b 100644
--- a/src/algorithms/visibility/naive.rs
+++ b/src/algorithms/visibility/naive.rs
@@ -182,6 +182,7 @@ where
 // Container for intersections that only store the nearest point to some origin.
 struct NearestIntersection<'a, T> {
   origin: &'a Point<T>,
+  crossings: usize,
   nearest_intersection: Option<Point<T>>,
 }
 
@@ -192,11 +193,13 @@ where
   fn new(origin: &'a Point<T>) -> NearestIntersection<'a, T> {
     NearestIntersection {
       origin,
+      crossings: 0,
       nearest_intersection: None,
     }
   }
 
   fn push(&mut self, mut intersection: Point<T>) {
+    self.crossings += 1;
     match self.nearest_intersection.as_mut() {
       None => self.nearest_intersection = Some(intersection),
       Some(previous) => {
@@ -207,7 +210,11 @@ where
     }
   }
 
+  // A ray from a point outside the polygon crosses the boundary an even number of times.
   fn take(self) -> Option<Point<T>> {
+    if self.crossings % 2 == 0 {
+      return None;
+    }
     self.nearest_intersection
   }
 }
-- 
2.43.0

