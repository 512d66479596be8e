From 5f1c88dc1e90625112dcb2376aedf51f3c80c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 01/51] fix: Mesh3D::face_vertex_ids must not overflow (or wrap
 to a wrong face) for huge face ids

---
 src/mesh_3d.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh_3d.rs b/src/mesh_3d.rs
index 77565a0..b782ea3 100644
--- a/src/mesh_3d.rs
+++ b/src/mesh_3d.rs
@@ -56,14 +56,14 @@ where
     }
 
     fn face_vertex_ids(&self, faceid: FId) -> Option<Face3> {
+        if faceid.0 >= self.num_faces() {
+            return None;
+        }
+
         let id1 = 3 * faceid.0 + 0;
         let id2 = 3 * faceid.0 + 1;
         let id3 = 3 * faceid.0 + 2;
 
-        if id3 >= self.topology.len() {
-            return None;
-        }
-
         Some(Face3::new(
             VId(self.topology.get(id1)),
             VId(self.topology.get(id2)),
-- 
2.43.0


From 25426d53bd45b745be29ba6dc664f22adee75661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 02/51] fix: HalfEdge twin must be the opposite edge itself,
 not the edge following it

---
 src/half_edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 8d7dafb..45995e2 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -112,7 +112,7 @@ where
             for originating_id in cache.iter() {
                 let _ = result.next(*originating_id).map(|candidate_id| {
                     if result.tails.get(candidate_id.0) == result.tails.get(i) {
-                        result.twins[i] = Some(candidate_id)
+                        result.twins[i] = Some(*originating_id)
                     }
                 });
             }
-- 
2.43.0


From 8606a8e0dc6815e98038bbbf57dd7be228d72768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 03/51] fix: HalfEdge must know vertices which aren't part of
 any face

---
 src/half_edge.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 45995e2..52ccc63 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -58,6 +58,12 @@ where
         let mut vertices_start_edges = Vec::with_capacity(n_vertices);
         let estimated_edges_per_vertex = 6; // true for all vertices within regular meshes, possibly best estimate
 
+        // vertices without faces have no edges, but are still valid
+        vertices_start_edges.resize(
+            n_vertices,
+            IC::with_capacity_and_support_for(estimated_edges_per_vertex, n_edges),
+        );
+
         for i in 0..n_faces {
             match mesh.face_vertex_ids(FId(i)) {
                 None => {}
-- 
2.43.0


From d359c1b16c0cd68571336b3e9ed64a23140adaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 04/51] fix: PointCloud3Df32::get_d must not overflow (or wrap
 to a wrong point) for huge indices

---
 src/point_cloud_3d_f32.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index 290b541..e19b69f 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -95,6 +95,9 @@ where
     }
 
     fn get_d(&self, index: usize) -> Option<P> {
+        if index >= self.len_d() {
+            return None;
+        }
         Some(P::new(
             *self.data.get(3 * index + 0)? as f64,
             *self.data.get(3 * index + 1)? as f64,
-- 
2.43.0


From 53c3a655d5d64e063793b9858a32181a87be2157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 05/51] fix: inserting at the end of a Vec / VecDeque must be
 possible, as for point clouds

---
 src/impls/vec.rs       | 2 +-
 src/impls/vec_deque.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 5725dc3..41c05e6 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -34,7 +34,7 @@ impl<T> IsRandomAccessible<T> for Vec<T> {
 
 impl<T> IsRandomInsertible<T> for Vec<T> {
     fn insert(&mut self, index: usize, x: T) -> Result<()> {
-        if index >= self.len() {
+        if index > self.len() {
             return Err(ErrorKind::IndexOutOfBounds);
         }
         self.insert(index, x);
diff --git a/src/impls/vec_deque.rs b/src/impls/vec_deque.rs
index 0fbb0c3..2cb9216 100644
--- a/src/impls/vec_deque.rs
+++ b/src/impls/vec_deque.rs
@@ -36,7 +36,7 @@ impl<T> IsRandomAccessible<T> for VecDeque<T> {
 
 impl<T> IsRandomInsertible<T> for VecDeque<T> {
     fn insert(&mut self, index: usize, x: T) -> Result<()> {
-        if index >= self.len() {
+        if index > self.len() {
             return Err(ErrorKind::IndexOutOfBounds);
         }
         self.insert(index, x);
-- 
2.43.0


From c3e09256561af646e9721fe7f5b5889e2acdbbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 06/51] fix: Sphere and FilterSphere returned y as z coordinate

---
 src/filter_sphere.rs | 2 +-
 src/sphere.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_sphere.rs b/src/filter_sphere.rs
index c994523..4510843 100644
--- a/src/filter_sphere.rs
+++ b/src/filter_sphere.rs
@@ -62,7 +62,7 @@ impl Is3D for FilterSphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.sphere.y()
+        self.sphere.z()
     }
 }
 
diff --git a/src/sphere.rs b/src/sphere.rs
index 7db25d6..834976f 100644
--- a/src/sphere.rs
+++ b/src/sphere.rs
@@ -73,7 +73,7 @@ impl Is3D for Sphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.center.y()
+        self.center.z()
     }
 }
 
-- 
2.43.0


From d67953125e49aa09063355eb0753f2edf7487b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 07/51] fix: bounding boxes of more than i32::MAX positions
 overflowed the position counter

---
 src/bounding_box_2d.rs | 4 ++--
 src/bounding_box_3d.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bounding_box_2d.rs b/src/bounding_box_2d.rs
index cc40768..7858337 100644
--- a/src/bounding_box_2d.rs
+++ b/src/bounding_box_2d.rs
@@ -63,7 +63,7 @@ impl BoundingBox2D {
         It2D: IntoIterator<Item = &'a P>,
         P: 'a + Is2D + Sized,
     {
-        let mut count = 0;
+        let mut count: usize = 0;
 
         let mut minx: f64 = 0.0;
         let mut miny: f64 = 0.0;
@@ -105,7 +105,7 @@ impl BoundingBox2D {
         It2D: IntoIterator<Item = P>,
         P: Is2D + Sized,
     {
-        let mut count = 0;
+        let mut count: usize = 0;
 
         let mut minx: f64 = 0.0;
         let mut miny: f64 = 0.0;
diff --git a/src/bounding_box_3d.rs b/src/bounding_box_3d.rs
index 7b2cd49..eb3d586 100644
--- a/src/bounding_box_3d.rs
+++ b/src/bounding_box_3d.rs
@@ -65,7 +65,7 @@ impl BoundingBox3D {
         It3D: IntoIterator<Item = &'a P>,
         P: 'a + Is3D + Sized,
     {
-        let mut count = 0;
+        let mut count: usize = 0;
 
         let mut minx: f64 = 0.0;
         let mut miny: f64 = 0.0;
@@ -128,7 +128,7 @@ impl BoundingBox3D {
         It3D: IntoIterator<Item = P>,
         P: Is3D + Sized,
     {
-        let mut count = 0;
+        let mut count: usize = 0;
 
         let mut minx: f64 = 0.0;
         let mut miny: f64 = 0.0;
-- 
2.43.0


From d334139dddbec5d5f5cf704591dc537ead5c9620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 08/51] fix: bounding boxes could be created with NaN limits

---
 src/bounding_box_2d.rs | 2 +-
 src/bounding_box_3d.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounding_box_2d.rs b/src/bounding_box_2d.rs
index 7858337..62b1138 100644
--- a/src/bounding_box_2d.rs
+++ b/src/bounding_box_2d.rs
@@ -42,7 +42,7 @@ impl BoundingBox2D {
     {
         if min.x() == max.x() || min.y() == max.y() {
             Err(ErrorKind::MinMaxEqual)
-        } else if min.x() > max.x() || min.y() > max.y() {
+        } else if !(min.x() < max.x()) || !(min.y() < max.y()) {
             Err(ErrorKind::MinMaxSwapped)
         } else {
             Ok(BoundingBox2D {
diff --git a/src/bounding_box_3d.rs b/src/bounding_box_3d.rs
index eb3d586..1b05de3 100644
--- a/src/bounding_box_3d.rs
+++ b/src/bounding_box_3d.rs
@@ -42,7 +42,7 @@ impl BoundingBox3D {
     {
         if min.x() == max.x() || min.y() == max.y() || min.z() == max.z() {
             Err(ErrorKind::MinMaxEqual)
-        } else if min.x() > max.x() || min.y() > max.y() || min.z() > max.z() {
+        } else if !(min.x() < max.x()) || !(min.y() < max.y()) || !(min.z() < max.z()) {
             Err(ErrorKind::MinMaxSwapped)
         } else {
             Ok(BoundingBox3D {
-- 
2.43.0


From 4a1246da41a923d64ac06bacb0a6919c1da4b5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 09/51] fix: PointCloud3Df32 had no bounding box for exactly
 two points

---
 src/point_cloud_3d_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index e19b69f..6f5919f 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -133,7 +133,7 @@ where
         let d = &self.data;
         let n_p = d.len() / 3;
 
-        if n_p <= 2 {
+        if n_p < 2 {
             return None;
         }
 
-- 
2.43.0


From 70de19f56993d4e8206bfe9797cb819dc688a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 10/51] fix: touching bounding boxes could count as colliding
 and overlapping ones as not colliding due to rounding

---
 src/bounding_box_2d.rs |  7 ++++---
 src/bounding_box_3d.rs | 11 ++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/bounding_box_2d.rs b/src/bounding_box_2d.rs
index 62b1138..98fc63c 100644
--- a/src/bounding_box_2d.rs
+++ b/src/bounding_box_2d.rs
@@ -195,9 +195,10 @@ impl BoundingBox2D {
     }
     /// Tests whether this bounding box and the other overlap in any way
     pub fn collides_with(&self, other: &BoundingBox2D) -> bool {
-        2.0 * (self.center_bb().x - other.center_bb().x).abs() < *(self.size_x() + other.size_x())
-            && 2.0 * (self.center_bb().y - other.center_bb().y).abs()
-                < *(self.size_y() + other.size_y())
+        self.min.x() < other.max.x()
+            && other.min.x() < self.max.x()
+            && self.min.y() < other.max.y()
+            && other.min.y() < self.max.y()
     }
     /// Tests whether this bounding box crosses a certain x value
     pub fn crossing_x_value(&self, x: f64) -> bool {
diff --git a/src/bounding_box_3d.rs b/src/bounding_box_3d.rs
index 1b05de3..166d1b4 100644
--- a/src/bounding_box_3d.rs
+++ b/src/bounding_box_3d.rs
@@ -250,11 +250,12 @@ impl BoundingBox3D {
     }
     /// Tests whether this bounding box and the other overlap in any way
     pub fn collides_with(&self, other: &BoundingBox3D) -> bool {
-        2.0 * (self.center_bb().x - other.center_bb().x).abs() < (*(self.size_x() + other.size_x()))
-            && 2.0 * (self.center_bb().y - other.center_bb().y).abs()
-                < (*(self.size_y() + other.size_y()))
-            && 2.0 * (self.center_bb().z - other.center_bb().z).abs()
-                < (*(self.size_z() + other.size_z()))
+        self.min.x() < other.max.x()
+            && other.min.x() < self.max.x()
+            && self.min.y() < other.max.y()
+            && other.min.y() < self.max.y()
+            && self.min.z() < other.max.z()
+            && other.min.z() < self.max.z()
     }
     /// Tests whether this bounding box crosses a certain x value
     pub fn crossing_x_value(&self, x: f64) -> bool {
-- 
2.43.0


From cefd7f43eb6fe412106865585375a02249556d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 11/51] fix: FilterAnyRandomAccessible never removed anything
 from the initial view

---
 src/filter_any_random_accessible.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filter_any_random_accessible.rs b/src/filter_any_random_accessible.rs
index 601593c..c5e1e3d 100644
--- a/src/filter_any_random_accessible.rs
+++ b/src/filter_any_random_accessible.rs
@@ -22,6 +22,8 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 //! FilterAnyRandomAccessible, a filter to chain multiple IsFilterRandomAccessible with the or condition => must pass any filter to pass this filter
 
+use std::collections::HashSet;
+
 use crate::*;
 
 //------------------------------------------------------------------------------
@@ -40,11 +42,12 @@ where
     RA: IsRandomAccessible<T>,
 {
     fn filter(&self, ra: &RA, view: &mut View) {
-        let view_initial = view.clone();
+        let mut view_any = View::Restricted(HashSet::new());
         for f in &self.filters {
-            let mut view_now = view_initial.clone();
+            let mut view_now = view.clone();
             f.filter(&ra, &mut view_now);
-            view.union(view_now);
+            view_any.union(view_now);
         }
+        *view = view_any;
     }
 }
-- 
2.43.0


From baa00b71fcefc7e60d2b6d9d1de9019cda1db08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 12/51] fix: fetch_line dropped the last character of an
 unterminated last line

---
 src/io/utils.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/utils.rs b/src/io/utils.rs
index f5d116b..3e64a64 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -99,10 +99,13 @@ where
         return Err(FetchLineError);
     }
 
-    // We must drop the '\n' we read_until for sure
+    // We must drop the '\n' we read_until, which might be missing at the end of the input
     // And might also have to drop additional whitespace
-    let mut ignore_end = 1;
-    for i in 1..line_buffer.len() {
+    let mut ignore_end = match line_buffer.last() {
+        Some(b'\n') => 1,
+        _ => 0,
+    };
+    for i in ignore_end..line_buffer.len() {
         if (line_buffer[line_buffer.len() - i - 1] as char).is_whitespace() {
             ignore_end += 1;
         } else {
-- 
2.43.0


From 142efe8423a0138863e38019a35165c718d3f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 13/51] fix: slice_from_bytes_be rejected correct sizes and
 accepted wrong ones

---
 src/io/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/from_bytes.rs b/src/io/from_bytes.rs
index 9244974..b7384aa 100644
--- a/src/io/from_bytes.rs
+++ b/src/io/from_bytes.rs
@@ -91,7 +91,7 @@ where
 {
     let size = std::mem::size_of::<FB>();
 
-    if size * bytes.len() != target.len() {
+    if bytes.len() != size * target.len() {
         return Err(FromBytesError::SizeMismatch);
     }
 
-- 
2.43.0


From f9aa0541ce412ef40d18d1f32e4f2c2c4742d6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 14/51] verification hook: access to internal io functions,
 guarded by --cfg rust_3d_verif

---
 src/io/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 57a949d..790cb7e 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -62,3 +62,10 @@ mod utils;
 
 mod byte_reader;
 mod from_bytes;
+
+#[cfg(rust_3d_verif)]
+#[doc(hidden)]
+/// Access to internal functions for verification, only part of builds with `--cfg rust_3d_verif`
+pub mod verif {
+    pub use super::{byte_reader::*, from_bytes::*, utils::*};
+}
-- 
2.43.0


From 79e8f7253d0dc15ada16afdbb3920f1a14061ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 15/51] fix: contains panicked for an empty needle

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 22db621..1db47eb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -59,7 +59,7 @@ pub fn contains<T>(haystack: &[T], needle: &[T]) -> bool
 where
     T: PartialEq,
 {
-    haystack.windows(needle.len()).any(|x| x == needle)
+    needle.is_empty() || haystack.windows(needle.len()).any(|x| x == needle)
 }
 
 /// Max of three f64 values
-- 
2.43.0


From a4fc5fb7b254a16b5dfa7e89e40641b00d480af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 16/51] fix: AABB trees lost all elements when boxes extend to
 infinity

---
 src/aa_bb_tree_2d.rs | 7 ++++++-
 src/aa_bb_tree_3d.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/aa_bb_tree_2d.rs b/src/aa_bb_tree_2d.rs
index d8400a3..544cac9 100644
--- a/src/aa_bb_tree_2d.rs
+++ b/src/aa_bb_tree_2d.rs
@@ -117,7 +117,12 @@ where
                         .filter(|x| Self::is_right_of(compx, &x.bounding_box(), &center))
                         .collect::<Vec<_>>();
 
-                    if (dleft.len() == dright.len()) && dleft.len() == data.len() {
+                    // an empty side means that nothing can be separated here
+                    // (e.g. the center of infinite boxes is not a number)
+                    if dleft.is_empty()
+                        || dright.is_empty()
+                        || ((dleft.len() == dright.len()) && dleft.len() == data.len())
+                    {
                         AABBTree2D::Leaf(AABBTree2DLeaf::new(data, bb))
                     } else {
                         let left = Box::new(Self::new_rec(
diff --git a/src/aa_bb_tree_3d.rs b/src/aa_bb_tree_3d.rs
index d34a15b..2e686be 100644
--- a/src/aa_bb_tree_3d.rs
+++ b/src/aa_bb_tree_3d.rs
@@ -137,7 +137,12 @@ where
                         .filter(|x| Self::is_right_of(&comp, &x.bounding_box(), &center))
                         .collect::<Vec<_>>();
 
-                    if (dleft.len() == dright.len()) && dleft.len() == data.len() {
+                    // an empty side means that nothing can be separated here
+                    // (e.g. the center of infinite boxes is not a number)
+                    if dleft.is_empty()
+                        || dright.is_empty()
+                        || ((dleft.len() == dright.len()) && dleft.len() == data.len())
+                    {
                         AABBTree3D::Leaf(AABBTree3DLeaf::new(data, bb))
                     } else {
                         let left = Box::new(Self::new_rec(
-- 
2.43.0


From b2b1cdbdb31acd57399df74f3829cf4b1aeaa823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 17/51] fix: KdTree k-nearest search compared with an arbitrary
 result instead of the farthest

---
 src/kd_tree.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/kd_tree.rs b/src/kd_tree.rs
index 967d28d..73d7bc6 100644
--- a/src/kd_tree.rs
+++ b/src/kd_tree.rs
@@ -224,6 +224,7 @@ where
         if pc.len() < n || sqr_dist_3d(search, &self.val) < sqr_dist_3d(search, &pc[&pc.len() - 1])
         {
             pc.push(self.val.clone());
+            Self::sort_and_limit(pc, search, n);
         }
 
         let comp = dimension_compare(search, &self.val, self.dimension);
@@ -407,12 +408,12 @@ where
         PSearch: Is3D,
         PFind: Is3D + Clone,
     {
+        pc.sort_by(|a, b| {
+            sqr_dist_3d(search, a)
+                .partial_cmp(&sqr_dist_3d(search, b))
+                .unwrap_or(Ordering::Equal)
+        });
         if pc.len() > max_size {
-            pc.sort_by(|a, b| {
-                sqr_dist_3d(search, a)
-                    .partial_cmp(&sqr_dist_3d(search, b))
-                    .unwrap_or(Ordering::Equal)
-            });
             let mut result: Vec<PFind>;
             result = Vec::new();
             for i in pc.iter().take(max_size) {
-- 
2.43.0


From a8796418c96e5b114e62adb60b69eada1e370ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 18/51] fix: equal points with zeros of different sign had
 different hashes

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 1db47eb..f5bfef2 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -73,7 +73,7 @@ pub fn hash_f64<H>(x: f64, state: &mut H)
 where
     H: Hasher,
 {
-    x.to_bits().hash(state);
+    (x + 0.0).to_bits().hash(state); // -0.0 == 0.0, must not differ in hash
 }
 
 /// Returns a container with duplicates removed and indices representing the original order
-- 
2.43.0


From 91e9b7f212908ce4945989392c619e17181309af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 19/51] fix: OcTree lost points on the border of the cloud and
 between octants

---
 src/oc_tree.rs | 69 ++++++++++++++++++++------------------------------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 5ce694e..8696c5b 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -121,31 +121,6 @@ enum Direction {
     NNN,
 }
 
-/*
-/// Calculates the direction of one point to another in terms of an enum
-pub fn calc_direction<P>(reference: &Point3D, p: &Point3D) -> Direction where
-    P: Is3D {
-
-    if p.x() >= reference.x() && p.y() >= reference.y() && p.z() >= reference.z() {
-        Direction::PPP
-    } else if p.x() >= reference.x() && p.y() >= reference.y() && p.z() < reference.z() {
-        Direction::PPN
-    } else if p.x() >= reference.x() && p.y() < reference.y() && p.z() >= reference.z() {
-        Direction::PNP
-    } else if p.x() >= reference.x() && p.y() < reference.y() && p.z() < reference.z() {
-        Direction::PNN
-    } else if p.x() < reference.x() && p.y() >= reference.y() && p.z() >= reference.z() {
-        Direction::NPP
-    } else if p.x() < reference.x() && p.y() >= reference.y() && p.z() < reference.z() {
-        Direction::NPN
-    } else if p.x() >= reference.x() && p.y() < reference.y() && p.z() >= reference.z() {
-        Direction::NNP
-    } else { //if p.x() < reference.x() && p.y() < reference.y() && p.z() < reference.z() {
-        Direction::NNN
-    }
-}
-*/
-
 impl<P> OcNode<P>
 where
     P: Is3D,
@@ -213,23 +188,18 @@ where
         let bbnnp = Self::calc_sub_min_max(Direction::NNP, bb)?;
         let bbnnn = Self::calc_sub_min_max(Direction::NNN, bb)?;
 
+        let middle = center_3d(&bb.min_p(), &bb.max_p());
+
         for p in pc {
-            if bbppp.contains(&p) {
-                pcppp.push(p);
-            } else if bbppn.contains(&p) {
-                pcppn.push(p);
-            } else if bbpnp.contains(&p) {
-                pcpnp.push(p);
-            } else if bbpnn.contains(&p) {
-                pcpnn.push(p);
-            } else if bbnpp.contains(&p) {
-                pcnpp.push(p);
-            } else if bbnpn.contains(&p) {
-                pcnpn.push(p);
-            } else if bbnnp.contains(&p) {
-                pcnnp.push(p);
-            } else if bbnnn.contains(&p) {
-                pcnnn.push(p);
+            match Self::calc_direction(&middle, &p) {
+                Direction::PPP => pcppp.push(p),
+                Direction::PPN => pcppn.push(p),
+                Direction::PNP => pcpnp.push(p),
+                Direction::PNN => pcpnn.push(p),
+                Direction::NPP => pcnpp.push(p),
+                Direction::NPN => pcnpn.push(p),
+                Direction::NNP => pcnnp.push(p),
+                Direction::NNN => pcnnn.push(p),
             }
         }
 
@@ -255,6 +225,23 @@ where
 
         Ok(OcNode::Node(result))
     }
+    /// Calculates the direction from the center of a node to a point, such that every point has one
+    fn calc_direction(reference: &Point3D, p: &P) -> Direction {
+        match (
+            p.x() >= reference.x(),
+            p.y() >= reference.y(),
+            p.z() >= reference.z(),
+        ) {
+            (true, true, true) => Direction::PPP,
+            (true, true, false) => Direction::PPN,
+            (true, false, true) => Direction::PNP,
+            (true, false, false) => Direction::PNN,
+            (false, true, true) => Direction::NPP,
+            (false, true, false) => Direction::NPN,
+            (false, false, true) => Direction::NNP,
+            (false, false, false) => Direction::NNN,
+        }
+    }
     /// Calculates the min and max values of sub nodes of an OcTree
     fn calc_sub_min_max(dir: Direction, bb: &BoundingBox3D) -> Result<BoundingBox3D> {
         let (min, max) = (bb.min_p(), bb.max_p());
-- 
2.43.0


From 7cca4f9d1be5679a4735575733018d74e7f52b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 20/51] fix: OcTree lost points too close to each other to be
 separated

---
 src/oc_tree.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 8696c5b..f9840c1 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -91,6 +91,7 @@ where
     P: Is3D,
 {
     Leaf(P),
+    Leaves(Vec<P>), // several points in a box that is too small to be divided
     Node(Internal<P>),
 }
 
@@ -129,6 +130,7 @@ where
     pub fn size(&self) -> usize {
         match self {
             Self::Leaf(_) => 1,
+            Self::Leaves(ps) => ps.len(),
             Self::Node(internal) => {
                 let mut result: usize = 0;
                 if let Some(ref n) = internal.ppp {
@@ -170,6 +172,11 @@ where
         if pc.len() == 1 {
             return Ok(OcNode::Leaf(pc[0].clone()));
         };
+        if Self::calc_sub_min_max(Direction::PPP, bb).is_err()
+            || Self::calc_sub_min_max(Direction::NNN, bb).is_err()
+        {
+            return Ok(OcNode::Leaves(pc));
+        }
         let mut pcppp = Vec::new();
         let mut pcppn = Vec::new();
         let mut pcpnp = Vec::new();
@@ -301,6 +308,11 @@ where
         let only_collect_centers = maxdepth >= 0 && depth > maxdepth;
         match self {
             &OcNode::Leaf(ref p) => pc.push(p.clone()),
+            &OcNode::Leaves(ref ps) => {
+                for p in ps {
+                    pc.push(p.clone());
+                }
+            }
 
             &OcNode::Node(ref internal) => {
                 if let Some(ref n) = internal.ppp {
-- 
2.43.0


From 8494d6ccba2eddcc899398edafce3e4b972c30f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 21/51] fix: OcTree::collect overflowed for trees deeper than
 127

---
 src/oc_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index f9840c1..bb8dc06 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -352,14 +352,14 @@ where
     ) {
         if only_collect_centers {
             let mut sub_pc = PointCloud3D::new();
-            n.collect(depth + 1, maxdepth, &mut sub_pc);
+            n.collect(depth.saturating_add(1), maxdepth, &mut sub_pc);
             if let Some(c) = sub_pc.center_of_gravity() {
                 let mut p = P::default();
                 p.from(&c);
                 pc.push(p);
             }
         } else {
-            n.collect(depth + 1, maxdepth, pc);
+            n.collect(depth.saturating_add(1), maxdepth, pc);
         }
     }
 }
-- 
2.43.0


From 6c4460391035d22b4da8d3f3754d7fcc322e0489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 22/51] fix: Douglas-Peucker dropped the point before each
 split and duplicated single points

---
 src/douglas_peucker_2d.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/douglas_peucker_2d.rs b/src/douglas_peucker_2d.rs
index 162ed0d..eacd118 100644
--- a/src/douglas_peucker_2d.rs
+++ b/src/douglas_peucker_2d.rs
@@ -31,7 +31,7 @@ pub fn douglas_peucker_2d<P>(mut pc: PointCloud2D<P>, epsilon: f64) -> PointClou
 where
     P: Is2D + Clone,
 {
-    if pc.len() < 1 {
+    if pc.len() <= 2 {
         return pc;
     }
 
@@ -47,11 +47,11 @@ where
         }
     }
 
-    if dmax > epsilon {
+    if index > 0 && dmax > epsilon {
         let mut pc1 = pc.clone();
         let mut pc2 = pc.clone();
 
-        pc1.data = pc.data.iter().cloned().take(index).collect();
+        pc1.data = pc.data.iter().cloned().take(index + 1).collect();
         pc1 = douglas_peucker_2d(pc1, epsilon);
 
         pc2.data = pc.data.into_iter().skip(index).collect();
-- 
2.43.0


From 729043aa181e6cd492f7c93fe6bf3ab45ee49400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 23/51] fix: Douglas-Peucker ignored all points of vertical and
 closed lines

---
 src/douglas_peucker_2d.rs | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/douglas_peucker_2d.rs b/src/douglas_peucker_2d.rs
index eacd118..0054912 100644
--- a/src/douglas_peucker_2d.rs
+++ b/src/douglas_peucker_2d.rs
@@ -79,25 +79,14 @@ where
     Q: Is2D,
     R: Is2D,
 {
-    let a1 = l1.x();
-    let a2 = l1.y();
+    let (dx, dy) = (l2.x() - l1.x(), l2.y() - l1.y());
+    let (px, py) = (p.x() - l1.x(), p.y() - l1.y());
+    let sqr_length = dx * dx + dy * dy;
 
-    let b1 = l2.x();
-    let b2 = l2.y();
-
-    let c1 = p.x();
-    let c2 = p.y();
-
-    let x = (a1 * a1 * c1 - a1 * a2 * b2 + a1 * a2 * c2 - 2.0 * a1 * b1 * c1 + a1 * b2 * b2
-        - a1 * b2 * c2
-        + a2 * a2 * b1
-        - a2 * b1 * b2
-        - a2 * b1 * c2
-        + b1 * b1 * c1
-        + b1 * b2 * c2)
-        / (a1 * a1 - 2.0 * a1 * b1 + a2 * a2 - 2.0 * a2 * b2 + b1 * b1 + b2 * b2);
-
-    let y = ((a2 - b2) * x + a1 * b2 - a2 * b1) / (a1 - b1);
+    // both positions of the line are equal
+    if sqr_length == 0.0 {
+        return (px * px + py * py).sqrt();
+    }
 
-    ((x - p.x()).powi(2) + (y - p.y()).powi(2)).sqrt()
+    (dx * py - dy * px).abs() / sqr_length.sqrt()
 }
-- 
2.43.0


From c4669ced934f9ee060f9c5f2453c5c9d25be12d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 24/51] fix: convex hull lost points with equal x and single
 points

---
 src/convex_hull_2d.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/convex_hull_2d.rs b/src/convex_hull_2d.rs
index df98677..1a587c9 100644
--- a/src/convex_hull_2d.rs
+++ b/src/convex_hull_2d.rs
@@ -23,6 +23,8 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 //! Convex hull algorithm returning a Vec of the hull where the points are ordered according to the hull
 //! Using Andrew's monotone chain convex hull algorithm https://en.wikibooks.org/wiki/Algorithm_Implementation/Geometry/Convex_hull/Monotone_chain
 
+use std::cmp::Ordering;
+
 use crate::*;
 
 //------------------------------------------------------------------------------
@@ -38,9 +40,21 @@ where
 
     let mut sorted = PointCloud2D::new();
     sorted.append_ra(ra);
-    sorted.sort_x();
+    sorted.data.sort_by(|a, b| {
+        let (l, r) = if a.x() == b.x() {
+            (a.y(), b.y())
+        } else {
+            (a.x(), b.x())
+        };
+        l.partial_cmp(&r).unwrap_or(Ordering::Equal)
+    });
     let sorted = sorted;
 
+    // all points are equal
+    if n > 0 && sorted[0].x() == sorted[n - 1].x() && sorted[0].y() == sorted[n - 1].y() {
+        return vec![sorted[0].clone()];
+    }
+
     let mut lower = Vec::<P>::new();
     for i in 0..n {
         while lower.len() >= 2
-- 
2.43.0


From 59d8b9a6fb33cb9fbf3494055e9a13bc6910c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 25/51] fix: clustering vertices with size 0 merged far
 vertices

---
 src/cluster_vertices.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cluster_vertices.rs b/src/cluster_vertices.rs
index 5fa7701..943fbe5 100644
--- a/src/cluster_vertices.rs
+++ b/src/cluster_vertices.rs
@@ -51,6 +51,10 @@ where
     if nx < 2 || ny < 2 || nz < 2 {
         return Err(ErrorKind::ClusterTooBig);
     }
+    // clusters too small to be numbered, far positions would share one
+    if nx == usize::MAX || ny == usize::MAX || nz == usize::MAX {
+        return Err(ErrorKind::NumberInWrongRange);
+    }
 
     let cluster_of = |ref p| {
         let v = conn(&min, p);
-- 
2.43.0


From 6949a881bfa39af48c2fee250861b96980c6408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 26/51] fix: psl files lost all points but the first

---
 src/io/psl.rs | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/io/psl.rs b/src/io/psl.rs
index e7f7fdd..dbedbc1 100644
--- a/src/io/psl.rs
+++ b/src/io/psl.rs
@@ -70,33 +70,21 @@ where
         self.n_passes_left = fetch_header_return_n_passes(&mut self.read)?;
         Ok(())
     }
+    /// Reads headers until there are points left within the current line or all passes are done
     #[inline(always)]
     fn fetch_counts(&mut self) -> PslResult<()> {
-        self.n_lines_left = if self.n_lines_left == 0 && self.n_passes_left > 0 {
-            fetch_pass_header_return_n_lines(&mut self.read)?
-        } else {
-            0
-        };
-        self.n_point_left = if self.n_point_left == 0 && self.n_lines_left > 0 {
-            fetch_line_header_return_n_points(&mut self.read)?
-        } else {
-            0
-        };
-        Ok(())
-    }
-    #[inline(always)]
-    fn reduce_count(&mut self) {
-        if self.n_point_left > 0 {
-            self.n_point_left -= 1
-        } else {
+        while self.n_point_left <= 0 {
             if self.n_lines_left > 0 {
-                self.n_lines_left -= 1
+                self.n_lines_left -= 1;
+                self.n_point_left = fetch_line_header_return_n_points(&mut self.read)?;
+            } else if self.n_passes_left > 0 {
+                self.n_passes_left -= 1;
+                self.n_lines_left = fetch_pass_header_return_n_lines(&mut self.read)?;
             } else {
-                if self.n_passes_left > 0 {
-                    self.n_passes_left -= 1
-                }
+                break;
             }
         }
+        Ok(())
     }
 }
 
@@ -125,12 +113,12 @@ where
             return Some(Err(e));
         }
 
-        if self.n_point_left == 0 {
+        if self.n_point_left <= 0 {
             self.is_done = true;
             return None;
         }
 
-        self.reduce_count();
+        self.n_point_left -= 1;
 
         return Some(fetch_point(&mut self.read).map_err(|e| {
             self.is_done = true;
-- 
2.43.0


From 2abddffe5af624cc884e1695b958146bd2da34dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 27/51] fix: obj face index 0 overflowed instead of giving an
 error

---
 src/io/obj.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index af7ab3b..379ddbf 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -306,7 +306,10 @@ fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
     tmp = words.next().ok_or(ObjError::Face)?;
     let c: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
 
-    //@todo could fail if 0 in file
     //obj indexing starts at 1
-    Ok([a - 1, b - 1, c - 1])
+    Ok([
+        a.checked_sub(1).ok_or(ObjError::Face)?,
+        b.checked_sub(1).ok_or(ObjError::Face)?,
+        c.checked_sub(1).ok_or(ObjError::Face)?,
+    ])
 }
-- 
2.43.0


From 6b9088d8ba2472ae6afd12c8d2b8130d071fe1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 28/51] fix: ply headers with more than three coordinate
 properties panicked

---
 src/io/ply/header.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 08fbd6b..0f0b1dc 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -144,6 +144,10 @@ where
                         .next()
                         .ok_or(PlyError::InvalidProperty)
                         .line(*i_line, line)?;
+                    let is_dimension = id == b"x" || id == b"y" || id == b"z";
+                    if is_dimension && n_types_found == 3 {
+                        return Err(PlyError::InvalidVertexDimensionDefinition).line(*i_line, line);
+                    }
                     if id == b"x" {
                         opt_fst_type = Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
-- 
2.43.0


From 6badeb2bd4858c34f7c2e000673f8a1368420e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 29/51] fix: ply coordinate types were assigned by name instead
 of by position

---
 src/io/ply/header.rs | 51 ++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 0f0b1dc..1599a60 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -42,7 +42,6 @@ where
     R: BufRead,
 {
     let mut vertex_order = [Xyz::X, Xyz::X, Xyz::X];
-    let mut i_vertex_order = 0;
 
     let mut ply_found = false;
     let mut read_state = HeaderReadState::Meta;
@@ -144,25 +143,25 @@ where
                         .next()
                         .ok_or(PlyError::InvalidProperty)
                         .line(*i_line, line)?;
-                    let is_dimension = id == b"x" || id == b"y" || id == b"z";
-                    if is_dimension && n_types_found == 3 {
-                        return Err(PlyError::InvalidVertexDimensionDefinition).line(*i_line, line);
-                    }
-                    if id == b"x" {
-                        opt_fst_type = Some(VertexType::try_from(t).line(*i_line, line)?);
-                        n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::X;
-                        i_vertex_order += 1;
-                    } else if id == b"y" {
-                        opt_snd_type = Some(VertexType::try_from(t).line(*i_line, line)?);
-                        n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::Y;
-                        i_vertex_order += 1;
-                    } else if id == b"z" {
-                        opt_third_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                    let opt_dimension = match id {
+                        b"x" => Some(Xyz::X),
+                        b"y" => Some(Xyz::Y),
+                        b"z" => Some(Xyz::Z),
+                        _ => None,
+                    };
+                    if let Some(dimension) = opt_dimension {
+                        let vertex_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                        match n_types_found {
+                            0 => opt_fst_type = vertex_type,
+                            1 => opt_snd_type = vertex_type,
+                            2 => opt_third_type = vertex_type,
+                            _ => {
+                                return Err(PlyError::InvalidVertexDimensionDefinition)
+                                    .line(*i_line, line)
+                            }
+                        }
+                        vertex_order[n_types_found] = dimension;
                         n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::Z;
-                        i_vertex_order += 1;
                     } else if n_types_found == 0 {
                         vertex_before.bytes += t.size_bytes();
                         vertex_before.words += 1;
@@ -225,7 +224,13 @@ where
         }
 
         if line == b"end_header" && ply_found {
-            if let (Some(format), Some(n_vertices), Some(x_type), Some(y_type), Some(z_type)) = (
+            if let (
+                Some(format),
+                Some(n_vertices),
+                Some(fst_type),
+                Some(snd_type),
+                Some(third_type),
+            ) = (
                 opt_format,
                 opt_n_vertices,
                 opt_fst_type,
@@ -236,9 +241,9 @@ where
                     count: n_vertices,
                     format: VertexFormat {
                         order: VertexOrder::try_from(vertex_order).line(*i_line, line)?,
-                        first: x_type,
-                        snd: y_type,
-                        third: z_type,
+                        first: fst_type,
+                        snd: snd_type,
+                        third: third_type,
                         before: vertex_before,
                         between_first_snd: vertex_between_first_snd,
                         between_snd_third: vertex_between_snd_third,
-- 
2.43.0


From 78ab9ff64b9624251458829f2490028e2b0b19b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 30/51] fix: ascii ply files missing exactly their last vertex
 were accepted

---
 src/io/ply/iterators_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 82ab84e..43a788a 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -378,9 +378,9 @@ where
             return None;
         }
         if self.current < self.header.vertex.count {
-            self.current += 1;
             while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
                 self.i_line += 1;
+                self.current += 1;
                 return Some(
                     Self::fetch_one(&self.header, line)
                         .line(self.i_line, line)
-- 
2.43.0


From 5f23e235fead7ca02b8419518758c8db55512a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 31/51] fix: ascii ply faces with properties before the indices
 could not be loaded

---
 src/io/ply/iterators_internal.rs | 2 +-
 src/io/ply/utils.rs              | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 43a788a..d0a262e 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -454,7 +454,7 @@ where
             while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
                 self.i_line += 1;
                 return Some(
-                    collect_index_line(&line)
+                    collect_index_line(&line, self.header.face.format.before.words)
                         .ok_or(PlyError::FaceStructure)
                         .line(self.i_line, line)
                         .map_err(|e| {
diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index dc00574..12c2544 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -34,8 +34,9 @@ use std::io::Read;
 //------------------------------------------------------------------------------
 
 #[inline(always)]
-pub fn collect_index_line(line: &[u8]) -> Option<[usize; 3]> {
+pub fn collect_index_line(line: &[u8], n_words_before: usize) -> Option<[usize; 3]> {
     let mut words = to_words_skip_empty(line);
+    skip_n(&mut words, n_words_before);
     if words.next()? != b"3" {
         return None;
     }
-- 
2.43.0


From 8a713fc67f7921228ab4cada8baa692bc46f2165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 32/51] fix: ptx files with huge row and column counts
 overflowed

---
 src/io/ptx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index e342459..5e99cce 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -155,7 +155,10 @@ where
 
         self.must_transform = self.transformation != Matrix4::identity();
 
-        self.n_points_to_fetch = rows * columns;
+        self.n_points_to_fetch = rows
+            .checked_mul(columns)
+            .ok_or(PtxError::Rows)
+            .index(self.i_line)?;
 
         Ok(())
     }
-- 
2.43.0


From 68649e8e8adc590ee549940bd504c8935e89294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 33/51] fix: las files with too short point records panicked

---
 src/io/las/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/las/types.rs b/src/io/las/types.rs
index 8966e55..d8ddf3a 100644
--- a/src/io/las/types.rs
+++ b/src/io/las/types.rs
@@ -64,6 +64,11 @@ impl TryFrom<HeaderRaw> for Header {
             return Err(LasError::UnknownPointFormat);
         }
 
+        // Every point record starts with the three coordinates
+        if x.point_record_length < 12 {
+            return Err(LasError::BinaryData);
+        }
+
         Ok(Header {
             offset_point_data: x.offset_point_data,
             point_record_length: x.point_record_length,
-- 
2.43.0


From f875a5ddd6948641855bac5c6c91eb27bc5f47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 34/51] fix: gcode lines consisting of just G90 or G91 were
 ignored

---
 src/io/gcode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index e4fc1f1..3372069 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -88,7 +88,7 @@ where
         while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
             self.i_line += 1;
 
-            if line.len() >= 4 && line[0] == b'G' {
+            if line.len() >= 3 && line[0] == b'G' {
                 if line[2] == b' ' && (line[1] == b'1' || line[1] == b'2' || line[1] == b'3') {
                     // Move according to absolute/relative
                     let mut any_changed = false;
@@ -130,7 +130,7 @@ where
                             }
                         }
                     }
-                } else if line[1] == b'9' && line[3] == b' ' {
+                } else if line[1] == b'9' && (line.len() == 3 || line[3] == b' ') {
                     // G9x
                     if line[2] == b'0' {
                         // G90
@@ -142,7 +142,7 @@ where
                         // G92
                         // Move according absolute
                         let mut any_changed = false;
-                        match command(&line[4..])
+                        match command(&line[3..])
                             .ok_or(GcodeError::Command)
                             .line(self.i_line, line)
                         {
-- 
2.43.0


From 59473f2b92492ba694f71af62ed10658244056ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 35/51] fix: loading files stating huge element counts panicked
 or aborted

---
 src/io/las/load.rs |  4 ++--
 src/io/off.rs      |  6 +++---
 src/io/ply/load.rs | 14 +++++++-------
 src/io/pts.rs      |  2 +-
 src/io/ptx.rs      |  2 +-
 src/io/stl.rs      | 12 ++++++------
 src/io/utils.rs    |  9 +++++++++
 7 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index da06a24..d4dbfa5 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -33,7 +33,7 @@ use std::{
     marker::PhantomData,
 };
 
-use super::super::{from_bytes::*, types::*};
+use super::super::{from_bytes::*, types::*, utils::*};
 
 //------------------------------------------------------------------------------
 
@@ -149,7 +149,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/off.rs b/src/io/off.rs
index 1b506af..0bceadd 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -316,8 +316,8 @@ where
                     .simple()?;
             }
             FaceDataReserve::ReserveDataFaces(n_vertices, n_faces) => {
-                mesh.reserve_vertices(n_vertices);
-                mesh.reserve_faces(n_faces);
+                mesh.reserve_vertices(limit_reserve(n_vertices));
+                mesh.reserve_faces(limit_reserve(n_faces));
             }
             FaceDataReserve::Data(x) => {
                 mesh.add_vertex(x);
@@ -339,7 +339,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ply/load.rs b/src/io/ply/load.rs
index 82ae4b6..a9d2006 100644
--- a/src/io/ply/load.rs
+++ b/src/io/ply/load.rs
@@ -26,7 +26,7 @@ use crate::*;
 
 use std::io::{BufRead, Read};
 
-use super::super::{byte_reader::*, types::*};
+use super::super::{byte_reader::*, types::*, utils::*};
 
 use super::{header::*, iterators::*, iterators_internal::*, types::*};
 
@@ -49,8 +49,8 @@ where
 
     match load_header(&mut read, &mut line_buffer, &mut i_line)? {
         Header::Full(header) => {
-            mesh.reserve_vertices(header.vertex.count);
-            mesh.reserve_faces(header.face.count);
+            mesh.reserve_vertices(limit_reserve(header.vertex.count));
+            mesh.reserve_faces(limit_reserve(header.face.count));
 
             match header.format {
                 Format::Ascii => load_mesh_ascii(&mut read, mesh, header, &mut i_line),
@@ -65,7 +65,7 @@ where
             Ok(MeshOrPoints::Mesh)
         }
         Header::Partial(header) => {
-            ip.reserve(header.vertex.count);
+            ip.reserve(limit_reserve(header.vertex.count));
 
             match header.format {
                 Format::Ascii => load_points_ascii(&mut read, ip, header, i_line),
@@ -97,8 +97,8 @@ where
                 mesh.add_vertex(p);
             }
             FaceDataReserve::ReserveDataFaces(n_d, n_f) => {
-                mesh.reserve_vertices(n_d);
-                mesh.reserve_faces(n_f);
+                mesh.reserve_vertices(limit_reserve(n_d));
+                mesh.reserve_faces(limit_reserve(n_f));
             }
             FaceDataReserve::Face([a, b, c]) => {
                 mesh.try_add_connection(VId(a), VId(b), VId(c))
@@ -124,7 +124,7 @@ where
 
     for rp in iterator {
         match rp? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/pts.rs b/src/io/pts.rs
index 1bec397..1b9a232 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -185,7 +185,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 5e99cce..d09a355 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -237,7 +237,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index b4f4213..95ed55a 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -350,8 +350,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                mesh.reserve_vertices(3 * n);
-                mesh.reserve_faces(n);
+                mesh.reserve_vertices(limit_reserve(3 * n));
+                mesh.reserve_faces(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 mesh.add_face(face.a, face.b, face.c);
@@ -385,8 +385,8 @@ where
         match fr? {
             DataReserve::Reserve(n) => {
                 //Can't reserve vertices since not sure how many are unique
-                mesh.reserve_faces(n);
-                face_normals.reserve(n);
+                mesh.reserve_faces(limit_reserve(n));
+                face_normals.reserve(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 let [a, b, c, n] = [face.a, face.b, face.c, face.n];
@@ -443,8 +443,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                ip.reserve(3 * n);
-                face_normals.reserve(n);
+                ip.reserve(limit_reserve(3 * n));
+                face_normals.reserve(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 ip.push(face.a);
diff --git a/src/io/utils.rs b/src/io/utils.rs
index 3e64a64..d501e88 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -30,6 +30,15 @@ use std::{
 
 //------------------------------------------------------------------------------
 
+/// Number of elements to reserve, given the number stated by the input
+/// Limited, since the input might state (a lot) more elements than it contains
+#[inline(always)]
+pub fn limit_reserve(n: usize) -> usize {
+    const MAX_RESERVE: usize = 1_000_000;
+
+    n.min(MAX_RESERVE)
+}
+
 /// Skip number of bytes
 #[inline(always)]
 pub fn skip_bytes<R>(read: &mut R, n_bytes: usize) -> std::io::Result<()>
-- 
2.43.0


From 93b9ddfd0ecfc06433d8ff817c0aa864011c1398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 36/51] fix: saving binary ply files ignored partial writes

---
 src/io/ply/save.rs | 52 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/io/ply/save.rs b/src/io/ply/save.rs
index 9b58ae3..e71fe7f 100644
--- a/src/io/ply/save.rs
+++ b/src/io/ply/save.rs
@@ -192,28 +192,28 @@ where
         Precision::P32 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
             }
         }
 
         Precision::P64 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
             }
         }
     }
 
     for i in 0..mesh.num_faces() {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating num_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
@@ -288,12 +288,12 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
 
@@ -301,22 +301,22 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
     }
 
     for i in 0..n_faces {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating n_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
-- 
2.43.0


From 9f6d0b769f43973cd73d98061e8e86bd505dd70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 37/51] fix: ply coordinates ordered y z x or z x y were mixed
 up

---
 src/io/ply/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index 12c2544..a1aa4e8 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -91,8 +91,8 @@ where
         VertexOrder::Xyz => P::new(fst, snd, third),
         VertexOrder::Xzy => P::new(fst, third, snd),
         VertexOrder::Yxz => P::new(snd, fst, third),
-        VertexOrder::Yzx => P::new(snd, third, fst),
-        VertexOrder::Zxy => P::new(third, fst, snd),
+        VertexOrder::Yzx => P::new(third, fst, snd),
+        VertexOrder::Zxy => P::new(snd, third, fst),
         VertexOrder::Zyx => P::new(third, snd, fst),
     }
 }
-- 
2.43.0


From dd6036398887684c7deb6757264baee830e398e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:09 +0000
Subject: [PATCH 38/51] fix: save_stl_ascii no longer panics on degenerate
 faces

---
 src/io/stl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 95ed55a..7ba52c2 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -63,7 +63,7 @@ where
 
     for i in 0..mesh.num_faces() {
         let [v1, v2, v3] = mesh.face_vertices(FId(i)).unwrap(); // safe since iterating num_faces
-        let n = mesh.face_normal(FId(i)).unwrap(); // safe since iterating num_faces
+        let n = mesh.face_normal(FId(i)).unwrap_or(Norm3D::norm_z()); // degenerate faces have no normal
         let buffer = "facet normal ".to_string()
             + &str_exp(&n)
             + "\n"
-- 
2.43.0


From 8d9fa7d8ec8a7567f1defcf4fde487af23358af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:28 +0000
Subject: [PATCH 39/51] fix: intersection missed boxes when a direction
 component is zero

---
 src/functions.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 3e04332..713803c 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -441,24 +441,20 @@ pub fn max64(a: f64, b: f64) -> f64 {
 //@todo better location and as trait?
 /// The intersection between a line and BoundingBox if there is any
 pub fn intersection(l: &Line3D, b: &BoundingBox3D) -> Option<Point3D> {
-    let inv_dir = [1.0 / l.dir.x(), 1.0 / l.dir.y(), 1.0 / l.dir.z()];
     let min = b.min_p();
     let max = b.max_p();
 
-    let tx1 = (min.x() - l.anchor.x()) * inv_dir[0];
-    let tx2 = (max.x() - l.anchor.x()) * inv_dir[0];
+    let (tx1, tx2) = intersection_slab(l.anchor.x(), l.dir.x(), min.x(), max.x())?;
 
     let mut tmin = min64(tx1, tx2);
     let mut tmax = max64(tx1, tx2);
 
-    let ty1 = (min.y() - l.anchor.y()) * inv_dir[1];
-    let ty2 = (max.y() - l.anchor.y()) * inv_dir[1];
+    let (ty1, ty2) = intersection_slab(l.anchor.y(), l.dir.y(), min.y(), max.y())?;
 
     tmin = max64(tmin, min64(ty1, ty2));
     tmax = min64(tmax, max64(ty1, ty2));
 
-    let tz1 = (min.z() - l.anchor.z()) * inv_dir[2];
-    let tz2 = (max.z() - l.anchor.z()) * inv_dir[2];
+    let (tz1, tz2) = intersection_slab(l.anchor.z(), l.dir.z(), min.z(), max.z())?;
 
     tmin = max64(tmin, min64(tz1, tz2));
     tmax = min64(tmax, max64(tz1, tz2));
@@ -469,3 +465,16 @@ pub fn intersection(l: &Line3D, b: &BoundingBox3D) -> Option<Point3D> {
         None
     }
 }
+
+/// Where a line crosses the bounds within one dimension, None if it stays outside of them
+fn intersection_slab(anchor: f64, dir: f64, min: f64, max: f64) -> Option<(f64, f64)> {
+    if dir == 0.0 {
+        if anchor < min || anchor > max {
+            None
+        } else {
+            Some((f64::NEG_INFINITY, f64::INFINITY))
+        }
+    } else {
+        Some(((min - anchor) / dir, (max - anchor) / dir))
+    }
+}
-- 
2.43.0


From 2378512231e7d2c507c30c0ada01e2bf986c5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:29 +0000
Subject: [PATCH 40/51] fix: BoxUnaligned3D collided as if it were twice its
 size

---
 src/box_unaligned_3d.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/box_unaligned_3d.rs b/src/box_unaligned_3d.rs
index 7f4f2f1..c219590 100644
--- a/src/box_unaligned_3d.rs
+++ b/src/box_unaligned_3d.rs
@@ -68,15 +68,15 @@ impl BoxUnaligned3D {
         }
     }
     fn d_x(&self) -> Point3D {
-        let d = *self.size[0];
+        let d = 0.5 * *self.size[0];
         Point3D::new_from(&self.x_dir()) * d
     }
     fn d_y(&self) -> Point3D {
-        let d = *self.size[1];
+        let d = 0.5 * *self.size[1];
         Point3D::new_from(&self.y_dir) * d
     }
     fn d_z(&self) -> Point3D {
-        let d = *self.size[2];
+        let d = 0.5 * *self.size[2];
         Point3D::new_from(&self.z_dir) * d
     }
     pub fn x_dir(&self) -> Norm3D {
-- 
2.43.0


From 14a67031f8a53d760a680f32f0d9dc8eac017f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:30 +0000
Subject: [PATCH 41/51] fix: bounding box of a rotated BoxUnaligned3D did not
 enclose it

---
 src/box_unaligned_3d.rs | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/box_unaligned_3d.rs b/src/box_unaligned_3d.rs
index c219590..ba12cfd 100644
--- a/src/box_unaligned_3d.rs
+++ b/src/box_unaligned_3d.rs
@@ -129,27 +129,10 @@ impl IsSATObject for BoxUnaligned3D {
 
 impl HasBoundingBox3D for BoxUnaligned3D {
     fn bounding_box(&self) -> BoundingBox3D {
-        let mut max_size = self.size[0];
-        if self.size[1] > max_size {
-            max_size = self.size[1]
-        }
-        if self.size[2] > max_size {
-            max_size = self.size[2]
-        }
+        let mut corners = Vec::new();
+        self.for_each_point(&mut |p: &Point3D| corners.push(p.clone()));
 
-        BoundingBox3D::new(
-            &Point3D::new(
-                self.center.x() - 0.5 * *max_size,
-                self.center.y() - 0.5 * *max_size,
-                self.center.z() - 0.5 * *max_size,
-            ),
-            &Point3D::new(
-                self.center.x() + 0.5 * *max_size,
-                self.center.y() + 0.5 * *max_size,
-                self.center.z() + 0.5 * *max_size,
-            ),
-        )
-        .unwrap() //@todo unwrap, see above
+        BoundingBox3D::from_iterator(&corners).unwrap() //@todo unwrap, see above
     }
 }
 
-- 
2.43.0


From e0cf2f92fb2b400d9d08f8a05e08ac2b714e03f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 42/51] fix: LineSegment2D/3D parallel to an axis were not
 scaled

---
 src/line_segment_2d.rs | 7 +++----
 src/line_segment_3d.rs | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/line_segment_2d.rs b/src/line_segment_2d.rs
index 92ac16b..6356397 100644
--- a/src/line_segment_2d.rs
+++ b/src/line_segment_2d.rs
@@ -69,10 +69,9 @@ impl HasCenterOfGravity2D for LineSegment2D {
 
 impl IsScalable for LineSegment2D {
     fn scale(&mut self, factor: Positive) {
-        if let Some(c) = self.bounding_box_maybe().map(|x| x.center_bb()) {
-            self.start.increase_distance_to_by(&c, factor);
-            self.end.increase_distance_to_by(&c, factor);
-        }
+        let c = center_2d(&self.start, &self.end);
+        self.start.increase_distance_to_by(&c, factor);
+        self.end.increase_distance_to_by(&c, factor);
     }
 }
 
diff --git a/src/line_segment_3d.rs b/src/line_segment_3d.rs
index 1320840..c983b77 100644
--- a/src/line_segment_3d.rs
+++ b/src/line_segment_3d.rs
@@ -69,10 +69,9 @@ impl HasCenterOfGravity3D for LineSegment3D {
 
 impl IsScalable for LineSegment3D {
     fn scale(&mut self, factor: Positive) {
-        if let Some(c) = self.bounding_box_maybe().map(|x| x.center_bb()) {
-            self.start.increase_distance_to_by(&c, factor);
-            self.end.increase_distance_to_by(&c, factor);
-        }
+        let c = center_3d(&self.start, &self.end);
+        self.start.increase_distance_to_by(&c, factor);
+        self.end.increase_distance_to_by(&c, factor);
     }
 }
 
-- 
2.43.0


From 4f06b631da586be52397944c61ca9a9419b05451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:50 +0000
Subject: [PATCH 43/51] fix: rad_to of parallel 3D directions was NaN by
 rounding

---
 src/is_3d.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/is_3d.rs b/src/is_3d.rs
index 9ea6219..0a7760a 100644
--- a/src/is_3d.rs
+++ b/src/is_3d.rs
@@ -71,7 +71,14 @@ pub trait Is3D: IsND {
         if *self.abs() == 0.0 || *other.abs() == 0.0 {
             return Err(ErrorKind::CantCalculateAngleIfZeroLength);
         }
-        Ok(Rad((self.dot(other) / *(self.abs() * other.abs())).acos()))
+        let mut cos = self.dot(other) / *(self.abs() * other.abs());
+        // rounding must not leave the domain of acos
+        if cos > 1.0 {
+            cos = 1.0;
+        } else if cos < -1.0 {
+            cos = -1.0;
+        }
+        Ok(Rad(cos.acos()))
     }
     /// Transforms the position in a "x y z" string. E.g. "3.72 5.99 1.01"
     fn to_str(&self) -> String {
-- 
2.43.0


From b435379a1ba1456e9f879e2e9508ca1b8fd5409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:51 +0000
Subject: [PATCH 44/51] fix: FilterDirectionField2D did not compare the angle
 between the directions

---
 src/filter_direction_field_2d.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_direction_field_2d.rs b/src/filter_direction_field_2d.rs
index 244025e..d412450 100644
--- a/src/filter_direction_field_2d.rs
+++ b/src/filter_direction_field_2d.rs
@@ -52,6 +52,7 @@ where
 {
     fn is_allowed(&self, pn: &(P, N)) -> bool {
         let expected = self.field.direction_at(&pn.0);
-        expected.rad_to(&pn.1) <= self.eps
+        let angle = expected.cross(&pn.1).atan2(expected.dot(&pn.1)).abs();
+        Rad(angle) <= self.eps
     }
 }
-- 
2.43.0


From f875ef264a90a0929a64ed8e7b5ca71ba0a41bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:03 +0000
Subject: [PATCH 45/51] fix: involut_circle ignored its start angle

---
 src/factory_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 5027442..ef04491 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -59,7 +59,7 @@ where
     let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
 
     for i in 0..n_points {
-        let current = (i as f64) * p_dist;
+        let current = start.0 + (i as f64) * p_dist;
         pc.push(P::new(
             center.x() + d / 2.0 * (current.cos() + current * current.sin()),
             center.y() + d / 2.0 * (current.sin() - current * current.cos()),
-- 
2.43.0


From 1f913d35e7fdd0a68cd5cb32d7a46dc30083c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 46/51] fix: ellipse created only half of an ellipse

---
 src/factory_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index ef04491..c3470c8 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -99,7 +99,7 @@ where
     P: IsBuildable2D,
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = PI / (n_points - 1) as f64;
+    let p_dist = 2.0 * PI / (n_points - 1) as f64;
     let a = *ap;
     let b = *bp;
     let angle: f64 = 0.0;
-- 
2.43.0


From e97a5de73bc7f335d562cc75789a4fc2b6a64585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 47/51] fix: interpolate_bezier overflowed for more than 21
 base points

---
 src/interpolate_2d.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index b0ff22f..2266547 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -28,21 +28,17 @@ use crate::*;
 
 //------------------------------------------------------------------------------
 
-fn factorial(number: usize) -> usize {
-    let mut result = 1;
+fn binominal_coefficient(n: usize, k: usize) -> f64 {
+    let mut result = 1.0;
 
-    for i in 1..number + 1 {
-        result *= i;
+    for i in 0..k {
+        result = result * (n - i) as f64 / (i + 1) as f64;
     }
     result
 }
 
-fn binominal_coefficient(n: usize, k: usize) -> usize {
-    factorial(n) / (factorial(k) * factorial(n - k))
-}
-
 fn bernstein_polynomial(n: usize, i: usize, t: f64) -> f64 {
-    (binominal_coefficient(n, i) as f64) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
+    binominal_coefficient(n, i) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
 }
 
 fn control_polygon<P>(path: &PointCloud2D<P>, n_points: usize, t: f64) -> P
-- 
2.43.0


From 57d97c0139662e5df089bcd2e831a1bd9c50dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:18 +0000
Subject: [PATCH 48/51] fix: factories and interpolations of less than two
 points underflowed or were NaN

---
 src/factory_2d.rs     | 6 +++---
 src/interpolate_2d.rs | 4 ++--
 src/utils.rs          | 8 ++++++++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index c3470c8..a08fa8c 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -56,7 +56,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = spacing((end.0 - start.0).abs(), n_points);
 
     for i in 0..n_points {
         let current = start.0 + (i as f64) * p_dist;
@@ -81,7 +81,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = spacing((end.0 - start.0).abs(), n_points);
 
     for i in 0..n_points {
         let radians = start.0 + (i as f64) * p_dist;
@@ -99,7 +99,7 @@ where
     P: IsBuildable2D,
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = 2.0 * PI / (n_points - 1) as f64;
+    let p_dist = spacing(2.0 * PI, n_points);
     let a = *ap;
     let b = *bp;
     let angle: f64 = 0.0;
diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index 2266547..bef1ae6 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -94,7 +94,7 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = spacing(base_points.length(), n_points);
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
@@ -136,7 +136,7 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = spacing(base_points.length(), n_points);
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
diff --git a/src/utils.rs b/src/utils.rs
index f5bfef2..ae04bae 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -134,6 +134,14 @@ pub fn estimate_delimiter(minimum_count: usize, line: &[u8]) -> Option<u8> {
     None
 }
 
+/// Returns the spacing of n values which cover the given length, both ends included
+pub fn spacing(length: f64, n: usize) -> f64 {
+    if n < 2 {
+        return 0.0;
+    }
+    length / (n - 1) as f64
+}
+
 /// Adds two Is3D values
 pub fn add<P, Q>(p: &P, q: &Q) -> P
 where
-- 
2.43.0


From 67c25647e2c0413ec235bfba1f5136c9362c8e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 49/51] fix: linear and cosine interpolation lost the last
 point by rounding and were NaN for equal base points

---
 src/interpolate_2d.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index bef1ae6..f6b9f32 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -107,9 +107,13 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
-                let proportion =
+            // rounding must not put the last point beyond the end
+            if traveled >= p_dist * (i as f64) || j == base_points.len() - 1 {
+                let mut proportion =
                     ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
+                if traveled == traveled_before {
+                    proportion = 0.0; // equal base points
+                }
                 let proportion2 = (1.0 - (proportion * PI).cos()) / 2.0;
                 pc.push(P::new(
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
@@ -150,9 +154,13 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
-                let proportion =
+            // rounding must not put the last point beyond the end
+            if traveled >= p_dist * (i as f64) || j == base_points.len() - 1 {
+                let mut proportion =
                     ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
+                if traveled == traveled_before {
+                    proportion = 0.0; // equal base points
+                }
                 pc.push(P::new(
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
                     p_prev.y() + proportion * (p_now.y() - p_prev.y()),
-- 
2.43.0


From 43d318e188ff087d4b71521ddb4922f41481c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:42 +0000
Subject: [PATCH 50/51] fix: CompressedPointCloud3D of 64 bit units always
 failed

---
 src/compressed_point_cloud_3d.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/compressed_point_cloud_3d.rs b/src/compressed_point_cloud_3d.rs
index 16af708..9f4d86d 100644
--- a/src/compressed_point_cloud_3d.rs
+++ b/src/compressed_point_cloud_3d.rs
@@ -72,9 +72,9 @@ where
             let disty = p.y() - bb.min_p().y;
             let distz = p.z() - bb.min_p().z;
 
-            let unitsx = T::from(distx / unitsizex).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsy = T::from(disty / unitsizey).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsz = T::from(distz / unitsizez).ok_or(ErrorKind::NumberConversionError)?;
+            let unitsx = to_units(distx / unitsizex, maxval)?;
+            let unitsy = to_units(disty / unitsizey, maxval)?;
+            let unitsz = to_units(distz / unitsizez, maxval)?;
 
             data.push(CompressedPoint3D {
                 unitsx,
@@ -112,3 +112,15 @@ where
         pc
     }
 }
+
+/// Converts to whole units, maxval is the largest value of T as f64
+fn to_units<T>(n: f64, maxval: f64) -> Result<T>
+where
+    T: Unsigned + PrimInt,
+{
+    // rounding must not exceed the largest value (that of 64 bit types is rounded up as f64)
+    if n >= maxval {
+        return Ok(T::max_value());
+    }
+    T::from(n).ok_or(ErrorKind::NumberConversionError)
+}
-- 
2.43.0


From c67e81153e2e3706f4f3379241389433508a3a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 51/51] fix: vertices added to a SearchableMesh were unknown to
 its queries

---
 src/half_edge.rs       | 6 ++++++
 src/searchable_mesh.rs | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 52ccc63..f0f97b9 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -199,6 +199,12 @@ where
         }
         Ok(())
     }
+    /// Ensures at least n vertices are known, additional vertices have no edges
+    pub fn ensure_vertices(&mut self, n: usize) {
+        while self.vertices_start_edges.len() < n {
+            self.vertices_start_edges.push(IC::with_capacity(0));
+        }
+    }
     /// Returns true if the give edge is the first within a face
     fn first_in_face(id: EId) -> bool {
         id.0 % 3 == 0
diff --git a/src/searchable_mesh.rs b/src/searchable_mesh.rs
index 81e0485..debf883 100644
--- a/src/searchable_mesh.rs
+++ b/src/searchable_mesh.rs
@@ -105,7 +105,9 @@ where
     IC: IsIndexContainer,
 {
     fn add_vertex(&mut self, vertex: T) -> VId {
-        self.mesh.add_vertex(vertex)
+        let id = self.mesh.add_vertex(vertex);
+        self.he.ensure_vertices(self.mesh.num_vertices());
+        id
     }
 
     fn change_vertex(&mut self, vid: VId, vertex: T) -> Result<()> {
-- 
2.43.0

