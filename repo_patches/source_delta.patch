From 3e7cece9e0a8c8abd510e12d57501b32e881e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 01/13] fix: reject duplicate points in KDTree::insert even
 when the right branch is occupied

---
 crates/mapping-algorithms/src/kd_tree/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/kd_tree/mod.rs b/crates/mapping-algorithms/src/kd_tree/mod.rs
index ca81f07..0cd6017 100644
--- a/crates/mapping-algorithms/src/kd_tree/mod.rs
+++ b/crates/mapping-algorithms/src/kd_tree/mod.rs
@@ -63,10 +63,13 @@ where
                 Ordering::Greater => (&mut self.right, false)
             };
 
+        // A duplicate must be rejected whether or not the branch is already occupied
+        if verify_equals && self.internal_data == data {
+            return false;
+        }
+
         if let Some(branch_exists) = branch_to_use.as_mut() {
             return branch_exists.insert(data, depth + 1);
-        } else if verify_equals && self.internal_data == data {
-            return false;
         }
 
         *branch_to_use = Some(Box::new(KDNode::new(data)));
-- 
2.43.0


From 3455f7de25e33e2328f5e1219180451bdb32ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 02/13] fix: haversine distance of (nearly) antipodal points is
 not NaN

---
 crates/mapping-algorithms/src/geo/haversine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/geo/haversine.rs b/crates/mapping-algorithms/src/geo/haversine.rs
index c9f0f37..d4ef339 100644
--- a/crates/mapping-algorithms/src/geo/haversine.rs
+++ b/crates/mapping-algorithms/src/geo/haversine.rs
@@ -68,7 +68,8 @@ where
     let inverse_haversine = (T::one() + T::one())
         * basic_haversine
             .sqrt()
-            .atan2((T::one() - basic_haversine).sqrt());
+            // Rounding can push the haversine of (nearly) antipodal points slightly above one
+            .atan2((T::one() - basic_haversine).max(T::zero()).sqrt());
 
     sphere_radius * inverse_haversine
 }
-- 
2.43.0


From f7821142309db92f57422e2d04cba9814700155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 03/13] fix: sort downsampled points in graham_scan even when
 the input is assumed sorted

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 757c1f9..b306358 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -96,15 +96,12 @@ where
     let points_sorted;
     let points_sorted_slice = match (assume_sorted, voxel_size) {
         (true, None) => points,
-        (true, Some(voxel_size)) => {
-            points_sorted = downsample_point_cloud_voxel(points, voxel_size);
-            points_sorted.as_slice()
-        }
         (false, None) => {
             points_sorted = lex_sort(points)?;
             points_sorted.as_slice()
         }
-        (false, Some(voxel_size)) => {
+        // Downsampling does not preserve the order of the points, so they must always be sorted afterwards
+        (_, Some(voxel_size)) => {
             let downsampled_points = downsample_point_cloud_voxel(points, voxel_size);
             points_sorted = lex_sort(downsampled_points.as_slice())?;
             points_sorted.as_slice()
-- 
2.43.0


From 1fdf34143a2e25f257079a80d2ceb7798f789aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:06 +0000
Subject: [PATCH 04/13] fix: do not build a KDTree in icp when the
 configuration disables it

---
 crates/mapping-algorithms/src/point_clouds/icp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
index 535548f..8773cdd 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
@@ -175,7 +175,7 @@ where
     }
 
     let mut points_to_transform = points_a.to_vec();
-    let target_points_tree = config.use_kd_tree.then_some(KDTree::from(points_b));
+    let target_points_tree = config.use_kd_tree.then(|| KDTree::from(points_b));
     let mut current_transform = Isometry::identity();
     let mut current_mse = <T as Bounded>::max_value();
 
-- 
2.43.0


From 2a589d9b55d769ff97a6205cf74983dfda892891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 05/13] fix: convex hulls of unsigned and wide integer points
 do not overflow

---
 crates/mapping-algorithms/src/polygons/mod.rs | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/mod.rs b/crates/mapping-algorithms/src/polygons/mod.rs
index e14b31f..0ea9ba2 100644
--- a/crates/mapping-algorithms/src/polygons/mod.rs
+++ b/crates/mapping-algorithms/src/polygons/mod.rs
@@ -26,7 +26,7 @@ pub use jarvis_march::jarvis_march;
 pub use point_in_polygon::{are_multiple_points_in_polygon, is_single_point_in_polygon};
 
 use nalgebra::{ComplexField, Point, Point2, RealField, Scalar};
-use num_traits::{AsPrimitive, Bounded, NumOps};
+use num_traits::{AsPrimitive, Bounded, NumAssign};
 
 use crate::{array, ops::RangeInclusive, types::PolygonExtents};
 
@@ -90,15 +90,30 @@ where
     Some(extents_accumulator)
 }
 
-fn calculate_determinant<O: ComplexField + Copy, T: Scalar + NumOps + AsPrimitive<O>>(
-    point_a: &Point2<T>,
-    point_b: &Point2<T>,
-    point_c: &Point2<T>,
-) -> O {
-    T::as_(
-        ((point_b.y - point_a.y) * (point_c.x - point_b.x))
-            - ((point_b.x - point_a.x) * (point_c.y - point_b.y)),
-    )
+/// Calculates `lhs - rhs` in the output precision, without overflowing when `T` is an integer type.
+fn signed_difference<O, T>(lhs: T, rhs: T) -> O
+where
+    O: ComplexField + Copy,
+    T: AsPrimitive<O> + NumAssign + PartialOrd,
+{
+    if (lhs < T::zero()) != (rhs < T::zero()) {
+        lhs.as_() - rhs.as_()
+    } else if lhs >= rhs {
+        (lhs - rhs).as_()
+    } else {
+        -(rhs - lhs).as_()
+    }
+}
+
+fn calculate_determinant<O, T>(point_a: &Point2<T>, point_b: &Point2<T>, point_c: &Point2<T>) -> O
+where
+    O: ComplexField + Copy,
+    T: AsPrimitive<O> + NumAssign + PartialOrd + Scalar,
+{
+    signed_difference::<O, T>(point_b.y, point_a.y)
+        * signed_difference::<O, T>(point_c.x, point_b.x)
+        - signed_difference::<O, T>(point_b.x, point_a.x)
+            * signed_difference::<O, T>(point_c.y, point_b.y)
 }
 
 #[cfg(test)]
-- 
2.43.0


From bb6dfac30e3f514d01c91d457634e8b8c61d1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 06/13] fix: jarvis_march terminates and stays correct on
 collinear points

The wrap candidate test accepted collinear points behind the current one, so
e.g. [(1,1),(2,2),(0,0)] never came back to the start (unbounded growth of the
hull) and [(0,1),(0,2),(0,0),(1,1)] skipped a vertex.
---
 .../src/polygons/jarvis_march.rs              | 54 ++++++++++++++++---
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 71a4b7a..16226c7 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -26,7 +26,20 @@ use num_traits::{real::Real, AsPrimitive, NumAssign};
 
 use crate::{point_clouds::downsample_point_cloud_voxel, Ordering, Vec};
 
-use super::calculate_determinant;
+use super::{calculate_determinant, signed_difference};
+
+/// Checks whether going from `current` to `next` is a turn of more than 90 degrees after arriving from `previous`.
+fn is_turning_back<O, T>(previous: &Point2<T>, current: &Point2<T>, next: &Point2<T>) -> bool
+where
+    O: ComplexField + Copy + Real,
+    T: AsPrimitive<O> + NumAssign + PartialOrd + Scalar,
+{
+    let dot_product = signed_difference::<O, T>(previous.x, current.x)
+        * signed_difference::<O, T>(next.x, current.x)
+        + signed_difference::<O, T>(previous.y, current.y)
+            * signed_difference::<O, T>(next.y, current.y);
+    dot_product > O::zero()
+}
 
 /// Computes the convex hull of a set of points using the Jarvis March algorithm.
 /// This algorithm uses a pivot point to find the next point in the convex hull by selecting for each point, the point which makes the largest outwards turn that is less than 180 degrees.
@@ -75,18 +88,47 @@ where
     })?;
 
     let mut hull = Vec::with_capacity(points_downsampled_slice.len());
+    let mut previous_vertex: Option<&Point2<T>> = None;
     loop {
         hull.push(*current_vertex);
-        let mut endpoint = &points_downsampled_slice[0];
+
+        // A hull never has more vertices than there are points, this can only happen due to rounding errors
+        if hull.len() > points_downsampled_slice.len() {
+            return None;
+        }
+
+        // Contains the best candidate so far, and whether the turn towards it is wider than 90 degrees
+        let mut endpoint: Option<(&Point2<T>, bool)> = None;
         for point in points_downsampled_slice {
-            if endpoint == current_vertex
-                || calculate_determinant(hull.last().unwrap(), endpoint, point) < O::zero()
+            let is_behind = previous_vertex
+                .is_some_and(|previous| is_turning_back::<O, T>(previous, current_vertex, point));
+
+            // Never go straight back along the edge which led to the current vertex
+            if point == current_vertex
+                || previous_vertex.is_some_and(|previous| {
+                    is_behind
+                        && calculate_determinant::<O, T>(previous, current_vertex, point)
+                            <= O::zero()
+                })
             {
-                endpoint = point;
+                continue;
+            }
+
+            let is_better = match endpoint {
+                Some((best, is_best_behind)) if is_best_behind == is_behind => {
+                    calculate_determinant::<O, T>(current_vertex, best, point) < O::zero()
+                }
+                Some((_, is_best_behind)) => is_best_behind,
+                None => true,
+            };
+            if is_better {
+                endpoint = Some((point, is_behind));
             }
         }
 
-        current_vertex = endpoint;
+        // When there is nowhere left to go, all the points are collinear
+        previous_vertex = Some(current_vertex);
+        current_vertex = endpoint?.0;
 
         if current_vertex == &hull[0] {
             break;
-- 
2.43.0


From 8be97c190870f365e3832dae6f1f60ffe564f5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 07/13] fix: plot_bresenham_line terminates for coordinates too
 large to represent unit steps

E.g. the f32 line (16777216,0)->(16777220,0) never advanced (16777216+1 rounds
back), growing the result forever. The number of steps is now known up front and
the points are computed as offsets from the start.
---
 crates/mapping-algorithms/src/lines/bresenham.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/mapping-algorithms/src/lines/bresenham.rs b/crates/mapping-algorithms/src/lines/bresenham.rs
index e8b737b..c84fe20 100644
--- a/crates/mapping-algorithms/src/lines/bresenham.rs
+++ b/crates/mapping-algorithms/src/lines/bresenham.rs
@@ -70,15 +70,16 @@ where
         .unwrap()
         .0;
 
-    let mut current_point = start_point;
+    // Walk using offsets from the starting point, adding a single step directly to a large coordinate might not change it at all
+    let mut offsets = [F::zero(); N];
     let mut errors = Vec::from([F::zero(); N]);
     let mut points = Vec::with_capacity(<F as AsPrimitive<usize>>::as_(
         deltas[primary_axis] + F::one(),
     ));
-    while <F as ComplexField>::abs(current_point[primary_axis] - end_point[primary_axis])
-        >= F::one()
-    {
-        points.push(current_point.map(|element| element.as_()));
+    for _ in 0..<F as AsPrimitive<usize>>::as_(deltas[primary_axis]) {
+        points.push(Point::from(array::from_fn(|idx| {
+            (start_point[idx] + offsets[idx]).as_()
+        })));
 
         for axis in 0..N {
             if axis == primary_axis {
@@ -88,12 +89,12 @@ where
             errors[axis] += deltas[axis] / deltas[primary_axis];
 
             if errors[axis] >= F::one() - (F::one() / (N + 1).as_()) {
-                current_point[axis] += steps[axis];
+                offsets[axis] += steps[axis];
                 errors[axis] -= F::one();
             }
         }
 
-        current_point[primary_axis] += steps[primary_axis];
+        offsets[primary_axis] += steps[primary_axis];
     }
 
     points.push(end_point.map(|element| element.as_()));
-- 
2.43.0


From 0e7f8e520b21d1434a44d814b3323836b6344817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 08/13] fix: icp does not hang on non-finite source points in
 3D space

A NaN or infinite source coordinate (or one large enough to overflow) made the
covariance matrix non-finite, on which nalgebra's iterative 3x3 SVD never
terminates; such an iteration can not converge, so report it as such.
---
 crates/mapping-algorithms/src/point_clouds/icp/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
index 8773cdd..0a96299 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
@@ -97,6 +97,11 @@ where
     let (rot_mat, mean_a, mean_b) =
         get_rotation_matrix_and_centroids(transformed_points, &closest_points);
 
+    // Decomposing a non-finite matrix never terminates in 3D space
+    if rot_mat.iter().any(|element| !element.is_finite()) {
+        return Err(ICPError::IterationDidNotConverge((mean_a, mean_b)));
+    }
+
     *current_transform =
         IsometryAbstractor::<T, N>::update_transform(current_transform, mean_a, mean_b, &rot_mat);
 
-- 
2.43.0


From d20274545f945f99b158c4819dcb99052c94d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 09/13] fix: update_transform extracts half-turn rotations
 correctly

UnitComplex/UnitQuaternion::from_matrix is iterative and starts at the identity,
which is a stationary point for (nearly) half-turn rotations, so the computed
rotation was discarded. The SVD product already is a proper rotation matrix.
---
 .../mapping-algorithms/src/types/isometry.rs   | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index bb72dc2..0ff62ac 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -22,7 +22,8 @@
  */
 
 use nalgebra::{
-    AbstractRotation, Isometry, Point, RealField, SMatrix, UnitComplex, UnitQuaternion,
+    AbstractRotation, Complex, Isometry, Point, RealField, Rotation3, SMatrix, UnitComplex,
+    UnitQuaternion,
 };
 
 use crate::{marker::PhantomData, utils::verify_rotation_matrix_determinant};
@@ -70,8 +71,10 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // Extracting the rotation iteratively (using `from_matrix`) gets stuck on rotations of half a turn
+        let rotation = UnitComplex::from_complex(Complex::new(rotation.m11, rotation.m21));
+
+        Isometry::from_parts(translation.into(), rotation) * old_transform
     }
 }
 
@@ -95,7 +98,12 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // Extracting the rotation iteratively (using `from_matrix`) gets stuck on rotations of half a turn
+        let rotation = UnitQuaternion::new_normalize(
+            UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(rotation))
+                .into_inner(),
+        );
+
+        Isometry::from_parts(translation.into(), rotation) * old_transform
     }
 }
-- 
2.43.0


From 26338dc6f607a3af93de49d5384b4b06556ec321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 10/13] fix: haversine distance next to a pole is not NaN

---
 crates/mapping-algorithms/src/geo/haversine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mapping-algorithms/src/geo/haversine.rs b/crates/mapping-algorithms/src/geo/haversine.rs
index d4ef339..4fa36af 100644
--- a/crates/mapping-algorithms/src/geo/haversine.rs
+++ b/crates/mapping-algorithms/src/geo/haversine.rs
@@ -67,6 +67,8 @@ where
 
     let inverse_haversine = (T::one() + T::one())
         * basic_haversine
+            // The cosine of a pole is rounded, possibly to slightly below zero, and so might be the haversine next to it
+            .abs()
             .sqrt()
             // Rounding can push the haversine of (nearly) antipodal points slightly above one
             .atan2((T::one() - basic_haversine).max(T::zero()).sqrt());
-- 
2.43.0


From 6f26835e7a66bf41b356081fafed78010a822633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:15 +0000
Subject: [PATCH 11/13] fix: polygons compile without the pregenerated feature

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs  | 2 ++
 crates/mapping-algorithms/src/polygons/jarvis_march.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index b306358..a94e558 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -169,7 +169,9 @@ macro_rules! impl_graham_scan {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f64, doc double);
 
 #[cfg(test)]
diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 16226c7..557a666 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -178,7 +178,9 @@ macro_rules! impl_jarvis_march {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f64, doc double);
 
 #[cfg(test)]
-- 
2.43.0


From e233952be2b77f7826166df5c38a09768f26e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:29 +0000
Subject: [PATCH 12/13] fix: ICPError implements Error when compiling with std

---
 .../src/point_clouds/icp/types.rs             | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/types.rs b/crates/mapping-algorithms/src/point_clouds/icp/types.rs
index f126994..b5fbf92 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/types.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/types.rs
@@ -44,20 +44,40 @@ pub struct ICPSuccess<T: Scalar, R: AbstractRotation<T, N>, const N: usize> {
 #[cfg_attr(feature = "std", derive(thiserror::Error))]
 pub enum ICPError<T: Scalar, const N: usize> {
     /// The source point cloud is empty.
+    #[cfg_attr(feature = "std", error("The source point cloud is empty"))]
     SourcePointCloudEmpty,
     /// The target point cloud is empty.
+    #[cfg_attr(feature = "std", error("The target point cloud is empty"))]
     TargetPointCloudEmpty,
     /// A source point had no nearest neighbour in the target point cloud.
+    #[cfg_attr(
+        feature = "std",
+        error("A source point had no nearest neighbour in the target point cloud")
+    )]
     NoNearestNeighbour,
     /// The amount of iterations was set to zero.
+    #[cfg_attr(feature = "std", error("The amount of iterations was set to zero"))]
     IterationNumIsZero,
     /// The Mean Squared Error interval threshold was set to zero.
+    #[cfg_attr(
+        feature = "std",
+        error("The Mean Squared Error interval threshold is too low")
+    )]
     MSEIntervalThreshold,
     /// The Mean Squared Error absolute threshold was set to zero.
+    #[cfg_attr(
+        feature = "std",
+        error("The Mean Squared Error absolute threshold is too low")
+    )]
     MSEAbsoluteThreshold,
     /// The Current iteration did not converge, returns the current mean points.
+    #[cfg_attr(feature = "std", error("The current iteration did not converge"))]
     IterationDidNotConverge((Point<T, N>, Point<T, N>)),
     /// The algorithm did not converge after the maximum amount of iterations.
+    #[cfg_attr(
+        feature = "std",
+        error("The algorithm did not converge after the maximum amount of iterations")
+    )]
     AlrogithmDidNotConverge,
 }
 
-- 
2.43.0


From 6273b05dbc670641098ee0dc63a3de85bf720245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 13/13] fix: jarvis_march survives points which are very close
 to each other

The turns were compared by a determinant relative to the candidates, not to the current vertex,
which loses the direction of the close ones in the rounding. Beyond that, the march could return
to a neighbour of its starting point and then give up, or be left without any candidate.
---
 .../src/polygons/jarvis_march.rs              | 32 +++++++------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 557a666..1fd70bf 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -92,31 +92,18 @@ where
     loop {
         hull.push(*current_vertex);
 
-        // A hull never has more vertices than there are points, this can only happen due to rounding errors
-        if hull.len() > points_downsampled_slice.len() {
-            return None;
-        }
-
         // Contains the best candidate so far, and whether the turn towards it is wider than 90 degrees
         let mut endpoint: Option<(&Point2<T>, bool)> = None;
         for point in points_downsampled_slice {
-            let is_behind = previous_vertex
-                .is_some_and(|previous| is_turning_back::<O, T>(previous, current_vertex, point));
-
-            // Never go straight back along the edge which led to the current vertex
-            if point == current_vertex
-                || previous_vertex.is_some_and(|previous| {
-                    is_behind
-                        && calculate_determinant::<O, T>(previous, current_vertex, point)
-                            <= O::zero()
-                })
-            {
+            if point == current_vertex || previous_vertex == Some(point) {
                 continue;
             }
 
+            let is_behind = previous_vertex
+                .is_some_and(|previous| is_turning_back::<O, T>(previous, current_vertex, point));
             let is_better = match endpoint {
                 Some((best, is_best_behind)) if is_best_behind == is_behind => {
-                    calculate_determinant::<O, T>(current_vertex, best, point) < O::zero()
+                    calculate_determinant::<O, T>(point, current_vertex, best) < O::zero()
                 }
                 Some((_, is_best_behind)) => is_best_behind,
                 None => true,
@@ -126,16 +113,21 @@ where
             }
         }
 
-        // When there is nowhere left to go, all the points are collinear
+        // When there is nowhere to go, there are less than three different points
         previous_vertex = Some(current_vertex);
         current_vertex = endpoint?.0;
 
-        if current_vertex == &hull[0] {
+        // Usually the starting point, but due to rounding errors, points which are very close to it can hide it
+        if hull.contains(current_vertex) {
             break;
         }
     }
 
-    if hull.len() < 3 {
+    // If all points are collinear, the march just went back and forth
+    if hull
+        .iter()
+        .all(|vertex| calculate_determinant::<O, T>(&hull[0], &hull[1], vertex) == O::zero())
+    {
         return None;
     }
 
-- 
2.43.0

