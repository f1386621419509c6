From ad1e06de1bf87743eeb3a7d0273ade5d1d8fce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 01/19] fix: keep the links of dangling and isolated edges when
 flipping them

---
 src/halfedge/edge/halfedge.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/halfedge/edge/halfedge.rs b/src/halfedge/edge/halfedge.rs
index 18921e4..ff981f2 100644
--- a/src/halfedge/edge/halfedge.rs
+++ b/src/halfedge/edge/halfedge.rs
@@ -135,14 +135,26 @@ impl<T: HalfEdgeImplMeshType> HalfEdge<T> for HalfEdgeImpl<T> {
         let target_id = mesh.edge(e).target_id(mesh);
 
         let edge = mesh.edge(e);
-        let next_id = edge.next;
-        let prev_id = edge.prev;
-        let face_id = edge.face_id();
         let twin_id = edge.twin_id();
 
+        // At a dangling end, the neighbor is the twin itself, which also changes its role.
+        let swapped = |id: T::E| {
+            if id == e {
+                twin_id
+            } else if id == twin_id {
+                e
+            } else {
+                id
+            }
+        };
+
+        let next_id = swapped(edge.next);
+        let prev_id = swapped(edge.prev);
+        let face_id = edge.face_id();
+
         let twin = mesh.edge(twin_id);
-        let t_next_id = twin.next;
-        let t_prev_id = twin.prev;
+        let t_next_id = swapped(twin.next);
+        let t_prev_id = swapped(twin.prev);
         let t_face_id = twin.face_id();
 
         let edge = mesh.edge_mut(e);
-- 
2.43.0


From 9d06c0e9f93135c75c3237017bccdc155730034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 02/19] fix: insert_dihedron closes the open side of the
 polygon

---
 src/halfedge/primitives/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halfedge/primitives/mod.rs b/src/halfedge/primitives/mod.rs
index 016fc86..fb256fd 100644
--- a/src/halfedge/primitives/mod.rs
+++ b/src/halfedge/primitives/mod.rs
@@ -22,7 +22,7 @@ where
 
     fn insert_dihedron(&mut self, vp: impl IntoIterator<Item = T::VP>) -> T::E {
         let first = self.insert_polygon(vp);
-        self.close_hole(self.edge(first).twin_id(), Default::default(), false);
+        self.close_hole(first, Default::default(), false);
         first
     }
 }
-- 
2.43.0


From 26fc0619b127ff79ef09e0947bc7660a597848ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 03/19] fix: remaining length announced by ForwardEdgeIterator

---
 src/halfedge/edge/iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/edge/iterator.rs b/src/halfedge/edge/iterator.rs
index fbf1281..4775964 100644
--- a/src/halfedge/edge/iterator.rs
+++ b/src/halfedge/edge/iterator.rs
@@ -55,7 +55,8 @@ impl<'a, T: HalfEdgeImplMeshType> Iterator for ForwardEdgeIterator<'a, T> {
     #[inline(always)]
     fn size_hint(&self) -> (usize, Option<usize>) {
         let mut curr = self.current.clone();
-        let mut len = 1;
+        // the current edge was already returned unless we didn't start yet
+        let mut len = if self.is_first { 1 } else { 0 };
         while curr.next(self.mesh).id() != self.first {
             len += 1;
             curr = curr.next(self.mesh);
-- 
2.43.0


From 1a90781bcca2aa3bbe1a9f4fb9af28c3fe57c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 04/19] fix: insert_vertices_into_edge at shared and dangling
 origins

---
 src/halfedge/mesh/builder/builder.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/halfedge/mesh/builder/builder.rs b/src/halfedge/mesh/builder/builder.rs
index 4f10605..8f5ee0a 100644
--- a/src/halfedge/mesh/builder/builder.rs
+++ b/src/halfedge/mesh/builder/builder.rs
@@ -128,9 +128,10 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
         let f2 = self.edge(twin_id).face_id();
         let mut last_v = self.edge(e).origin_id();
         let mut first = true;
+        let mut first_edge = e;
+        let dangling = current == twin_id;
         for (ep1, ep2, vp) in ps {
-            let (v, e1, e2) =
-                self.add_vertex_via_edge(current, self.edge(current).twin_id(), vp, ep1, ep2);
+            let (v, e1, e2) = self.add_vertex_via_edge(current, current_twin, vp, ep1, ep2);
             current = e1;
             current_twin = e2;
             last_v = v;
@@ -138,7 +139,13 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
             self.edge_mut(current_twin).set_face(f2);
             if first {
                 self.vertex_mut(self.edge(e).origin_id()).set_edge(e1);
+                first_edge = e1;
                 first = false;
+                if dangling {
+                    // nothing else is connected to the origin, so the first pair wraps around
+                    self.edge_mut(e1).set_prev(e2);
+                    self.edge_mut(e2).set_next(e1);
+                }
             }
         }
 
@@ -148,7 +155,7 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
         self.edge_mut(twin_id).set_next(current_twin);
         self.edge_mut(e).set_origin(last_v);
 
-        return e;
+        return first_edge;
     }
 
     fn add_vertex(&mut self, vp: T::VP) -> T::V {
-- 
2.43.0


From a868c412ff144e6cca56bc6078bab4b9c30e6b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 05/19] fix: import meshes with isolated vertices

---
 src/halfedge/mesh/builder/halfedge.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/halfedge/mesh/builder/halfedge.rs b/src/halfedge/mesh/builder/halfedge.rs
index de52dcb..68b6295 100644
--- a/src/halfedge/mesh/builder/halfedge.rs
+++ b/src/halfedge/mesh/builder/halfedge.rs
@@ -350,6 +350,7 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
             face_map.insert(face.id(), f);
         }
         let mut edge_map = std::collections::HashMap::new();
+        edge_map.insert(IndexType::max(), IndexType::max());
         for edge in MeshBasics::edges(mesh) {
             let e = res.halfedges.allocate();
             edge_map.insert(edge.id(), e);
-- 
2.43.0


From a457ad023d0d05303f1092e392c3c2005f185e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 06/19] fix: triangulation measures with a non-zero start
 offset

---
 src/mesh/triangulation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 2e60803..c122812 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -179,7 +179,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
     /// Check for non-degenerate triangles (no zero-area triangles)
     pub fn verify_non_degenerate_triangle<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) {
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let area = self.get_triangle_area(i, vec_hm);
             /*assert!(
                 area.abs() > Vec2::S::ZERO,
@@ -228,8 +228,8 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
             );
         }*/
 
-        for i in (self.start..num_vertices).step_by(3) {
-            for j in (self.start..num_vertices).step_by(3) {
+        for i in (0..num_vertices).step_by(3) {
+            for j in (0..num_vertices).step_by(3) {
                 if i == j {
                     continue;
                 }
@@ -292,7 +292,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
     /// Calculate the total edge weight of the triangulation
     pub fn total_edge_weight<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) -> Vec2::S {
         let mut total = Vec2::S::ZERO;
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let (i1, i2, i3) = self.get_triangle(i);
             let v0 = vec_hm[&i1];
             let v1 = vec_hm[&i2];
-- 
2.43.0


From cc7b1483df5ac6083db4cc12dcedd722379f3bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 07/19] fix: quadrilateral triangulation tests convexity in the
 right order

---
 src/tesselate/fixed_n.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tesselate/fixed_n.rs b/src/tesselate/fixed_n.rs
index 92e9007..b6305c7 100644
--- a/src/tesselate/fixed_n.rs
+++ b/src/tesselate/fixed_n.rs
@@ -69,7 +69,7 @@ pub fn min_weight_quad<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2>>(
 
     if weight_diagonal_0_2 <= weight_diagonal_1_3 {
         let vs1_3_convex =
-            vs[1].vec.convex(vs[2].vec, vs[0].vec) && vs[3].vec.convex(vs[0].vec, vs[2].vec);
+            vs[1].vec.convex(vs[0].vec, vs[2].vec) && vs[3].vec.convex(vs[2].vec, vs[0].vec);
         if vs1_3_convex {
             // insert the diagonal 0-2
             indices.insert_triangle(vs[0].index, vs[1].index, vs[2].index);
-- 
2.43.0


From a9cef85c477eeaa2b12c06b09698ffadf8a9b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 08/19] fix: is_trivially_isomorphic_ex reads the other mesh

---
 src/mesh/mesh/basics.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 346eb3c..5a93f21 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -364,8 +364,8 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         for e in self.edges() {
             let other_e = other.edge(e.id());
             if e.id() != other_e.id()
-                || e.origin(self).id() != other_e.origin(self).id()
-                || e.target(self).id() != other_e.target(self).id()
+                || e.origin(self).id() != other_e.origin(other).id()
+                || e.target(self).id() != other_e.target(other).id()
                 || !compare_edge(e, other_e)
             {
                 return MeshEquivalenceDifference::DifferentEdges(e.id(), other_e.id());
@@ -375,10 +375,10 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         for f in self.faces() {
             let other_f = other.face(f.id());
             if f.id() != other_f.id()
-                || f.num_vertices(self) != other_f.num_vertices(self)
+                || f.num_vertices(self) != other_f.num_vertices(other)
                 || !equal_up_to_rotation(
                     &f.edge_ids(self).collect_vec(),
-                    &other_f.edge_ids(self).collect_vec(),
+                    &other_f.edge_ids(other).collect_vec(),
                 )
                 || !compare_face(f, other_f)
             {
-- 
2.43.0


From b0a7d6a8e59c04414148656aac5064f59dd424e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 09/19] fix: from_rotation_arc handles opposite directions

---
 src/extensions/nalgebra/math/rotate.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/extensions/nalgebra/math/rotate.rs b/src/extensions/nalgebra/math/rotate.rs
index f3ecdbd..61b9534 100644
--- a/src/extensions/nalgebra/math/rotate.rs
+++ b/src/extensions/nalgebra/math/rotate.rs
@@ -98,14 +98,18 @@ impl<S: Scalar, const D: usize> NdRotate<S, D> {
                 rot: None,
             }
         } else if D == 3 {
+            let from = from.fixed_rows::<3>(0).into_owned();
+            let to = to.fixed_rows::<3>(0).into_owned();
             Self {
                 rot2: None,
                 rot3: Some(
-                    nalgebra::Rotation3::rotation_between(
-                        &from.fixed_rows::<3>(0).into_owned(),
-                        &to.fixed_rows::<3>(0).into_owned(),
-                    )
-                    .expect("Failed to create rotation"),
+                    nalgebra::Rotation3::rotation_between(&from, &to).unwrap_or_else(|| {
+                        // Opposite directions: a half turn around any axis orthogonal to them
+                        let mut other = VecN::<S, 3>::zeros();
+                        other[from.iamin()] = S::ONE;
+                        let axis = nalgebra::Unit::new_normalize(from.cross(&other));
+                        nalgebra::Rotation3::from_axis_angle(&axis, S::PI)
+                    }),
                 ),
                 rot: None,
             }
-- 
2.43.0


From a36869d11eddd364e66069cccbd2d90d79f010f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 10/19] fix: sweep triangulators split a chain that has no
 right side yet

---
 src/tesselate/sweep/monotone/delaunay.rs | 3 ++-
 src/tesselate/sweep/monotone/dynamic.rs  | 4 ++--
 src/tesselate/sweep/monotone/linear.rs   | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tesselate/sweep/monotone/delaunay.rs b/src/tesselate/sweep/monotone/delaunay.rs
index 850eca0..7dcb45e 100644
--- a/src/tesselate/sweep/monotone/delaunay.rs
+++ b/src/tesselate/sweep/monotone/delaunay.rs
@@ -440,7 +440,8 @@ impl<V: IndexType, Vec2: Vector2D> MonotoneTriangulator for DelaunayMonoTriangul
         } else if self.d == ChainDirection::Right {
             self.last_left.unwrap()
         } else {
-            self.last_right.unwrap()
+            // the right side might still consist of the first vertex only
+            self.last_right.unwrap_or(self.first())
         };
 
         assert!(res == self.first());
diff --git a/src/tesselate/sweep/monotone/dynamic.rs b/src/tesselate/sweep/monotone/dynamic.rs
index 024fbd4..09def0a 100644
--- a/src/tesselate/sweep/monotone/dynamic.rs
+++ b/src/tesselate/sweep/monotone/dynamic.rs
@@ -102,8 +102,8 @@ impl<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2>> MonotoneTriangulator
             assert!(self.left.len() > 0);
             self.left[self.left.len() - 1]
         } else {
-            assert!(self.right.len() > 0);
-            self.right[self.right.len() - 1]
+            // the right side might still consist of the first vertex only
+            *self.right.last().unwrap_or(&self.left[0])
         }
     }
 
diff --git a/src/tesselate/sweep/monotone/linear.rs b/src/tesselate/sweep/monotone/linear.rs
index 638b417..9b8b626 100644
--- a/src/tesselate/sweep/monotone/linear.rs
+++ b/src/tesselate/sweep/monotone/linear.rs
@@ -219,7 +219,8 @@ impl<V: IndexType, Vec2: Vector2D> MonotoneTriangulator for LinearMonoTriangulat
         } else if self.d == ChainDirection::Right {
             self.last_left.unwrap()
         } else {
-            self.last_right.unwrap()
+            // the right side might still consist of the first vertex only
+            self.last_right.unwrap_or(self.first())
         };
 
         assert!(res == self.first());
-- 
2.43.0


From 22c9e663bd7b909264fbd865c39440fb84e38a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 11/19] fix: sweep status compares the interval lookups after
 the containment test

---
 src/tesselate/sweep/status.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/tesselate/sweep/status.rs b/src/tesselate/sweep/status.rs
index 131a7c9..ba3e127 100644
--- a/src/tesselate/sweep/status.rs
+++ b/src/tesselate/sweep/status.rs
@@ -236,7 +236,12 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             .expect("The tree should be initialized.")
             .range(sorter.clone()..)
             .next()
-            .map(|sorter| sorter.left);
+            .map(|sorter| sorter.left)
+            .filter(|i| {
+                self.left[*i]
+                    .as_ref()
+                    .is_some_and(|v| v.contains(pos, vec2s))
+            });
 
         debug_assert!(
             x == self.find_linearly(pos, vec2s),
@@ -250,14 +255,7 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             self.tree,
         );
 
-        if let Some(i) = x {
-            if let Some(v) = &self.left[i] {
-                if v.contains(pos, vec2s) {
-                    return x;
-                }
-            }
-        }
-        None
+        x
     }
 
     /// Delayed initialization of the b-tree
-- 
2.43.0


From 35e3b59750fa14816765c528c09f7c081a4377c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 12/19] fix: sweep splits an interval along the diagonal to its
 lowest vertex

---
 src/tesselate/sweep/sweep.rs | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/tesselate/sweep/sweep.rs b/src/tesselate/sweep/sweep.rs
index 48acda5..e151042 100644
--- a/src/tesselate/sweep/sweep.rs
+++ b/src/tesselate/sweep/sweep.rs
@@ -126,38 +126,26 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
         let line = self.sls.remove_left(i, &self.vec2s).unwrap();
         assert!(!line.is_end(), "A split vertex must not be an end vertex");
 
-        let stacks = if let Some(mut fixup) = line.fixup {
+        // the diagonal from the lowest vertex of the interval is the only one that is certainly visible
+        let (mut left, mut right) = if let Some(fixup) = line.fixup {
             #[cfg(feature = "sweep_debug_print")]
             println!("fixup split: {}", fixup);
 
-            let t = fixup.last_opposite();
-
-            fixup.right(event.here, self.tri, self.vec2s);
-            fixup.finish(self.tri, self.vec2s);
-
-            let mut x = MT::new(t);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            (line.chain, fixup)
         } else if line.chain.is_right() {
-            let mut x = MT::new(line.helper);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            (line.chain, MT::new(line.helper))
         } else {
-            let mut x = MT::new(line.chain.last_opposite());
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            (MT::new(line.helper), line.chain)
         };
+        left.right(event.here, self.tri, self.vec2s);
+        right.left(event.here, self.tri, self.vec2s);
 
         self.sls.insert(
             SweepLineInterval {
                 helper: event.here,
                 left: line.left,
                 right: IntervalBoundaryEdge::new(event.here, event.prev),
-                chain: {
-                    let mut x = line.chain;
-                    x.right(event.here, self.tri, self.vec2s);
-                    x
-                },
+                chain: left,
                 fixup: None,
             },
             self.vec2s,
@@ -168,7 +156,7 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
                 helper: event.here,
                 left: IntervalBoundaryEdge::new(event.here, event.next),
                 right: line.right,
-                chain: stacks,
+                chain: right,
                 fixup: None,
             },
             self.vec2s,
-- 
2.43.0


From 45fdf2eaf0ff8cb3ab86ba2accfa54b640cf7bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 13/19] fix: with_scale scales after the existing
 transformation

---
 src/extensions/nalgebra/math/transform_n.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/nalgebra/math/transform_n.rs b/src/extensions/nalgebra/math/transform_n.rs
index a4c718c..4db28ee 100644
--- a/src/extensions/nalgebra/math/transform_n.rs
+++ b/src/extensions/nalgebra/math/transform_n.rs
@@ -91,7 +91,7 @@ impl<S: ScalarPlus, const D: usize> TransformTrait<S, D> for NdAffine<S, D> {
 
     fn with_scale(&self, v: Self::Vec) -> Self {
         Self {
-            matrix: self.matrix * SMatrix::<S, D, D>::from_diagonal(&v),
+            matrix: SMatrix::<S, D, D>::from_diagonal(&v) * self.matrix,
             translation: self.translation.component_mul(&v),
         }
     }
-- 
2.43.0


From 6abdd6523e8b5fe93acb7aac5ad2eb6d83f8ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 14/19] fix: comparing meshes with different handles panicked
 instead of naming the difference

is_trivially_isomorphic_ex looked up every handle of one mesh in the other.
When the other mesh has no such element (e.g. after another face was removed),
the lookup panicked. Walk both meshes side by side instead; the handles are
already compared.
---
 src/mesh/mesh/basics.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 5a93f21..182bee0 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -354,15 +354,13 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             return MeshEquivalenceDifference::DifferentNumberOfFaces;
         }
 
-        for v in self.vertices() {
-            let other_v = other.vertex(v.id());
+        for (v, other_v) in self.vertices().zip(other.vertices()) {
             if v.id() != other_v.id() || !compare_vertex(v, other_v) {
                 return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
             }
         }
 
-        for e in self.edges() {
-            let other_e = other.edge(e.id());
+        for (e, other_e) in self.edges().zip(other.edges()) {
             if e.id() != other_e.id()
                 || e.origin(self).id() != other_e.origin(other).id()
                 || e.target(self).id() != other_e.target(other).id()
@@ -372,8 +370,7 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             }
         }
 
-        for f in self.faces() {
-            let other_f = other.face(f.id());
+        for (f, other_f) in self.faces().zip(other.faces()) {
             if f.id() != other_f.id()
                 || f.num_vertices(self) != other_f.num_vertices(other)
                 || !equal_up_to_rotation(
-- 
2.43.0


From e2dd3e733541f8c2a9d453da8d846b810fdc310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 15/19] fix: cylinder always panicked because smooth frustums
 are not implemented

---
 src/primitives/prismatoid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index 7dfb468..379b421 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -250,7 +250,8 @@ where
 
     /// Creates a regular cylinder
     fn cylinder(radius: T::S, height: T::S, n: usize) -> T::Mesh {
-        Self::regular_frustum(radius, radius, height, n, true)
+        Self::regular_frustum(radius, radius, height, n, false)
+        // TODO: make it smooth
     }
 
     /// Creates a regular prism with given radius `r`, height `h`, and `n` sides.
-- 
2.43.0


From 0b91274557c9db86020e4723c4c6ac16573e5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 16/19] fix: insert_antiprism looked for the polygon's face on
 its outside and always panicked

---
 src/primitives/prismatoid.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index 379b421..680270e 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -74,15 +74,10 @@ where
     /// of the top polygon will be slightly smaller!
     fn insert_antiprism(&mut self, vp: impl IntoIterator<Item = T::VP>, height: T::S) -> T::E {
         let first = self.insert_polygon(vp);
-        let f = self
-            .edge(first)
-            .face(self)
-            .expect("The polygon must have a face");
+        let twin = self.edge(first).twin(self);
+        let f = twin.face(self).expect("The polygon must have a face");
         let normal = f.normal(self).normalize();
-        let e = self.extrude_tri2(
-            self.edge(first).twin_id(),
-            T::Trans::from_translation(-normal * height),
-        );
+        let e = self.extrude_tri2(first, T::Trans::from_translation(-normal * height));
         e
     }
 
-- 
2.43.0


From 18a1d1def641ceb99029b93bab826ccf93ee801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 17/19] fix: dodecahedron started its hem at an edge inside the
 first face and always panicked

---
 src/primitives/sphere.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index ec2016a..748325e 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -79,15 +79,15 @@ where
         let make_vp = |x, y, z| T::VP::from_pos(T::Vec::from_xyz(x, y, z));
 
         let mut mesh: Self = Make2dShape::polygon([
-            make_vp(one, one, one),    // orange
-            make_vp(zero, phi, iphi),  // green
-            make_vp(-one, one, one),   // orange
-            make_vp(-iphi, zero, phi), // blue
             make_vp(iphi, zero, phi),  // blue
+            make_vp(-iphi, zero, phi), // blue
+            make_vp(-one, one, one),   // orange
+            make_vp(zero, phi, iphi),  // green
+            make_vp(one, one, one),    // orange
         ]);
 
         // TODO: polygon should return something more helpful
-        let start = mesh.shared_edge_id(T::V::new(1), T::V::new(0)).unwrap();
+        let start = mesh.shared_edge_id(T::V::new(3), T::V::new(4)).unwrap();
         let start_middle = mesh.loft_polygon_back(
             start,
             3,
-- 
2.43.0


From d06a56e8725a5491988fab806cfbf32081c02c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:31 +0000
Subject: [PATCH 18/19] fix: extrude_boundary skipped holes that no face has as
 its representative edge

---
 src/operations/extrude.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operations/extrude.rs b/src/operations/extrude.rs
index 43fc8a4..05abbf7 100644
--- a/src/operations/extrude.rs
+++ b/src/operations/extrude.rs
@@ -24,9 +24,9 @@ where
         T::VP: Transformable<D, Trans = T::Trans, S = T::S>,
         T: EuclideanMeshType<D, Mesh = Self>,
     {
-        let faces = self.face_ids().collect_vec();
-        for f in faces {
-            let e = self.face(f).edge(self).twin_id();
+        // an extruded hole is closed, so each hole is extruded once
+        let edges = self.edge_ids().collect_vec();
+        for e in edges {
             if self.edge(e).is_boundary_self() {
                 self.extrude(e, transform);
             }
-- 
2.43.0


From 88910ec4408a4fabaefd299d23682a2c7bc0c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:15 +0000
Subject: [PATCH 19/19] fix: geodesic_tetrahedron starts from a tetrahedron
 with the given radius

The radius was passed as edge length, so the four initial vertices were not on
the sphere (nor at the distance of all other vertices).
---
 src/primitives/sphere.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index 748325e..9795c30 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -18,6 +18,11 @@ pub fn icosahedron_a2r<S: Scalar>(a: S) -> S {
     (S::TEN + S::TWO * S::FIVE.sqrt()).sqrt() * a / S::FOUR
 }
 
+/// Convert a radius 'r' to edge length 'a' of a tetrahedron.
+pub fn tetrahedron_r2a<S: Scalar>(r: S) -> S {
+    S::FOUR * r / (S::TWO * S::THREE).sqrt()
+}
+
 // TODO: Reduce type requirements
 
 /// A trait for creating sphere approximations.
@@ -199,7 +204,7 @@ where
     where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
-        let mut mesh = Self::regular_tetrahedron(radius);
+        let mut mesh = Self::regular_tetrahedron(tetrahedron_r2a(radius));
         debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
-- 
2.43.0

