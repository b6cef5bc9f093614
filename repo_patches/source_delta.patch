From 76920b67301b7d7c3eccabe8a9c8762936d445a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 01/24] fix: report empty halves when dividing an empty polygon

The stale vertex count of the previous row or column was reused, so spans
were rasterized in columns the triangle does not touch.
---
 crates/rerecast/src/rasterize.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index ee844e8..e99d2f9 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -207,6 +207,9 @@ fn divide_poly(
     if in_vert_count > 12 {
         return Err(PolygonDivisionError::TooManyVertices(in_vert_count));
     } else if in_vert_count == 0 {
+        // Nothing is left of the polygon, so neither side has any vertices.
+        *out_vert_count_1 = 0;
+        *out_vert_count_2 = 0;
         return Ok(());
     }
     let in_vert_count = in_vert_count as usize;
-- 
2.43.0


From 0399b27d2f7d638b3923028fc7d9b9139641825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 02/24] fix: link neighbors on the highest representable layer

A neighbor on layer 62 fits the packed connection but was dropped without
reporting an error.
---
 crates/rerecast/src/compact_heightfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 8e590a7..6c491c0 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -228,7 +228,7 @@ impl Heightfield {
                             }
                             // Mark direction as walkable.
                             let layer_index = k as i32 - neighbor_cell.index() as i32;
-                            if layer_index < 0 || layer_index >= MAX_LAYERS as i32 {
+                            if layer_index < 0 || layer_index > MAX_LAYERS as i32 {
                                 max_layer_index = max_layer_index.max(layer_index as u32);
                                 continue;
                             }
-- 
2.43.0


From 5a9b168c624c57095baca105a12b9386ee14f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 03/24] fix: round cell coordinates down when rasterizing

Truncation maps the strip just outside the lower field border to cell 0, so
the first row and column got spans (or heights) from geometry that lies
outside of them.
---
 crates/rerecast/src/rasterize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index e99d2f9..01ab468 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -54,8 +54,8 @@ impl Heightfield {
         // Calculate the footprint of the triangle on the grid's z-axis
         // z0 is the first z cell that the triangle touches
         // z1 is the last z cell that the triangle touches
-        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
-        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
+        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
+        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
 
         // use -1 rather than 0 to cut the polygon properly at the start of the tile
         let z0 = z0.clamp(-1, h - 1);
@@ -106,8 +106,8 @@ impl Heightfield {
                 min_x = min_x.min(in_row[i as usize].x);
                 max_x = max_x.max(in_row[i as usize].x);
             }
-            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size) as i16;
-            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size) as i16;
+            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
+            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
             if x1 < 0 || x0 >= w {
                 continue;
             }
-- 
2.43.0


From 6a6771d36133db3f4634d49cfdfd158d3615775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 04/24] fix: erode by radii of 128 cells and more

The distances were kept in 8 bits, so twice the radius wrapped around and
large radii eroded little or nothing.
---
 crates/rerecast/src/erosion.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/erosion.rs b/crates/rerecast/src/erosion.rs
index c14d2b6..b96cfe0 100644
--- a/crates/rerecast/src/erosion.rs
+++ b/crates/rerecast/src/erosion.rs
@@ -6,7 +6,7 @@ use crate::{
 impl CompactHeightfield {
     /// Erode the walkable area by agent radius.
     pub fn erode_walkable_area(&mut self, erosion_radius: u16) {
-        let mut distance_to_boundary = vec![u8::MAX; self.spans.len()];
+        let mut distance_to_boundary = vec![u16::MAX; self.spans.len()];
 
         // Mark boundary cells.
         for z in 0..self.height {
@@ -49,7 +49,7 @@ impl CompactHeightfield {
             }
         }
 
-        let mut new_distance: u8;
+        let mut new_distance: u16;
 
         // Pass 1
         for z in 0..self.height {
@@ -163,8 +163,7 @@ impl CompactHeightfield {
             }
         }
 
-        // Jan: This just wraps on overflow. Is that intentional???
-        let min_boundary_distance = (erosion_radius * 2) as u8;
+        let min_boundary_distance = erosion_radius.saturating_mul(2);
         #[expect(
             clippy::needless_range_loop,
             reason = "lol the alternative suggestion is really unreadable"
-- 
2.43.0


From 6bff6fa73b2fa81505d9deca6c681051c32a0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 05/24] fix: build the distance field of an empty surface

build_distance_field panicked when no span is walkable.
---
 crates/rerecast/src/watershed_distance_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/watershed_distance_field.rs b/crates/rerecast/src/watershed_distance_field.rs
index 1bbf117..8fe7f5f 100644
--- a/crates/rerecast/src/watershed_distance_field.rs
+++ b/crates/rerecast/src/watershed_distance_field.rs
@@ -17,8 +17,8 @@ impl CompactHeightfield {
     /// Prepare for region partitioning, by calculating distance field along the walkable surface.
     pub fn build_distance_field(&mut self) {
         let distance_field = self.calculate_distance_field();
-        // Safety: Unwrap is fine as long as `spans` is not empty, as `distance_field` has the same length
-        self.max_distance = *distance_field.iter().max().unwrap();
+        // An empty surface has no distances at all.
+        self.max_distance = distance_field.iter().max().copied().unwrap_or(0);
         let distance_field = self.box_blur(1, &distance_field);
         self.dist = distance_field;
     }
-- 
2.43.0


From d73cca81db17483bc9a916504ff90c8533799359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 06/24] fix: check all neighbors of border-adjacent spans when
 flooding regions

---
 crates/rerecast/src/watershed_build_regions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 3bedbe0..64df4b0 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -563,7 +563,7 @@ impl CompactHeightfield {
                     let nr = src_reg[a_index];
                     if nr.intersects(RegionId::BORDER_REGION) {
                         // Do not take borders into account.
-                        break;
+                        continue;
                     }
                     if nr != RegionId::NONE && nr != region {
                         ar = nr;
-- 
2.43.0


From 03c4d6ca0fe3f6abeb0d9f18bdfd984a2aabd416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 07/24] fix: grow the contour set when there are more contours
 than regions

---
 crates/rerecast/src/contours.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index fd24f47..750e758 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -116,7 +116,7 @@ impl CompactHeightfield {
                             // This happens when a region has holes.
                             let old_max = max_contours;
                             max_contours *= 2;
-                            cset.contours.truncate(max_contours as usize);
+                            cset.contours.resize(max_contours as usize, Contour::default());
 
                             tracing::warn!(
                                 "Region has holes. Expanding contour set from max {old_max} to max {max_contours}"
-- 
2.43.0


From d68e675bc8e76270bacfe564bb7195065ab13250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 08/24] fix: build contours of fields narrower than their
 border

---
 crates/rerecast/src/contours.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index 750e758..3f02e69 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -24,8 +24,8 @@ impl CompactHeightfield {
             aabb: self.aabb,
             cell_size: self.cell_size,
             cell_height: self.cell_height,
-            width: self.width - self.border_size * 2,
-            height: self.height - self.border_size * 2,
+            width: self.width.saturating_sub(self.border_size.saturating_mul(2)),
+            height: self.height.saturating_sub(self.border_size.saturating_mul(2)),
             border_size: self.border_size,
             max_error,
         };
-- 
2.43.0


From 9babb3ee4b0f0e013639b4fb9bb525354a6db8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 09/24] fix: compare long contour edges without overflow

---
 crates/rerecast/src/contours.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index 3f02e69..845700a 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -445,7 +445,7 @@ fn simplify_contour(
             let should_tesselate = is_wall_edge || is_edge_between_areas;
             if should_tesselate {
                 let d = b.xz().as_ivec2() - a.xz().as_ivec2();
-                if d.length_squared() > (max_edge_len * max_edge_len) as i32 {
+                if i64::from(d.length_squared()) > i64::from(max_edge_len).pow(2) {
                     // Round based on the segments in lexilogical order so that the
                     // max tesselation is consistent regardless in which direction
                     // segments are traversed.
-- 
2.43.0


From fbbfbfd28925a1579cc240d354c97a1f559faf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 10/24] fix: merge the holes of a region into its outline

---
 crates/rerecast/src/contours.rs  | 168 ++++++++++++++++++++++++++++++-
 crates/rerecast/src/poly_mesh.rs |   8 +-
 2 files changed, 171 insertions(+), 5 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index 845700a..6da4eb7 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -2,7 +2,10 @@ use glam::{U16Vec3, Vec3Swizzles};
 
 use crate::{
     Aabb3d, AreaType, CompactHeightfield, RegionId,
-    math::{dir_offset_x, dir_offset_z, distance_squared_between_point_and_line_u16vec2},
+    math::{
+        dir_offset_x, dir_offset_z, distance_squared_between_point_and_line_u16vec2, next, prev,
+    },
+    poly_mesh::{intersect, left, left_on, vequal},
 };
 
 impl CompactHeightfield {
@@ -148,6 +151,7 @@ impl CompactHeightfield {
             }
         }
         cset.contours.resize_with(contour_count, Contour::default);
+        merge_holes(&mut cset.contours, self.max_region);
         cset
     }
 
@@ -510,6 +514,168 @@ fn remove_degenerate_segments(simplified: &mut Vec<(U16Vec3, u32)>) {
     }
 }
 
+/// Merges the contours of holes into the outline of their region.
+///
+/// Merged holes are left without vertices.
+fn merge_holes(contours: &mut [Contour], max_region: RegionId) {
+    // If a contour is wound backwards, it is a hole.
+    let winding: Vec<bool> = contours
+        .iter()
+        .map(|contour| signed_area_doubled(&contour.vertices) >= 0)
+        .collect();
+    if winding.iter().all(|is_outline| *is_outline) {
+        return;
+    }
+
+    // Collect the outline contour and hole contours per region.
+    // We assume that there is one outline and multiple holes.
+    let nregions = max_region.bits() as usize + 1;
+    let mut outlines = vec![None; nregions];
+    let mut holes = vec![Vec::new(); nregions];
+    for (i, contour) in contours.iter().enumerate() {
+        let region = contour.region.bits() as usize;
+        if winding[i] {
+            if outlines[region].is_some() {
+                tracing::error!("Multiple outlines for region {region}.");
+            }
+            outlines[region] = Some(i);
+        } else {
+            holes[region].push(i);
+        }
+    }
+
+    // Merge each region's holes into the outline.
+    for (region, holes) in holes.into_iter().enumerate() {
+        if holes.is_empty() {
+            continue;
+        }
+        if let Some(outline) = outlines[region] {
+            merge_region_holes(contours, outline, holes);
+        } else {
+            // This can happen if the contour becomes self-overlapping because of
+            // too aggressive simplification settings.
+            tracing::error!(
+                "Bad outline for region {region}, contour simplification is likely too aggressive."
+            );
+        }
+    }
+}
+
+fn merge_region_holes(contours: &mut [Contour], outline_index: usize, holes: Vec<usize>) {
+    // Sort holes from left to right.
+    let mut holes: Vec<(usize, usize)> = holes
+        .into_iter()
+        .map(|hole| (hole, left_most_vertex(&contours[hole].vertices)))
+        .collect();
+    holes.sort_by_key(|(hole, left_most)| {
+        let vertex = contours[*hole].vertices[*left_most].0;
+        (vertex.x, vertex.z)
+    });
+
+    let mut outline = contours[outline_index].vertices.clone();
+    for i in 0..holes.len() {
+        let (hole_index, left_most) = holes[i];
+        let hole = contours[hole_index].vertices.clone();
+
+        let mut merge_at = None;
+        for iter in 0..hole.len() {
+            let hole_vertex = (left_most + iter) % hole.len();
+            let corner = hole[hole_vertex].0;
+
+            // Find potential diagonals.
+            // The outline vertices that have the hole vertex in their cone are candidates.
+            let mut diagonals: Vec<usize> = (0..outline.len())
+                .filter(|j| in_cone(*j, &outline, corner))
+                .collect();
+            // Make the connection as short as possible.
+            diagonals.sort_by_key(|j| {
+                (outline[*j].0.xz().as_ivec2() - corner.xz().as_ivec2()).length_squared()
+            });
+
+            // Find a diagonal that is not intersecting the outline nor the remaining holes.
+            let diagonal = diagonals.into_iter().find(|j| {
+                let point = outline[*j].0;
+                !segment_intersects_contour(point, corner, Some(*j), &outline)
+                    && holes[i..].iter().all(|(hole, _)| {
+                        !segment_intersects_contour(point, corner, None, &contours[*hole].vertices)
+                    })
+            });
+            if let Some(diagonal) = diagonal {
+                merge_at = Some((diagonal, hole_vertex));
+                break;
+            }
+            // All the potential diagonals for the current vertex were intersecting, try the next vertex.
+        }
+        let Some((outline_vertex, hole_vertex)) = merge_at else {
+            tracing::warn!("Failed to find merge points for a hole and its outline.");
+            continue;
+        };
+
+        // Walk once around the outline, then once around the hole.
+        let mut merged = Vec::with_capacity(outline.len() + hole.len() + 2);
+        merged.extend((0..=outline.len()).map(|j| outline[(outline_vertex + j) % outline.len()]));
+        merged.extend((0..=hole.len()).map(|j| hole[(hole_vertex + j) % hole.len()]));
+        outline = merged;
+        contours[hole_index].vertices.clear();
+    }
+    contours[outline_index].vertices = outline;
+}
+
+/// Twice the area of the polygon on the xz-plane. Positive for outlines, negative for holes.
+fn signed_area_doubled(vertices: &[(U16Vec3, u32)]) -> i64 {
+    (0..vertices.len())
+        .map(|i| {
+            let a = vertices[i].0.as_i64vec3();
+            let b = vertices[prev(i, vertices.len())].0.as_i64vec3();
+            a.x * b.z - b.x * a.z
+        })
+        .sum()
+}
+
+fn left_most_vertex(vertices: &[(U16Vec3, u32)]) -> usize {
+    (0..vertices.len())
+        .min_by_key(|i| (vertices[*i].0.x, vertices[*i].0.z))
+        .unwrap_or_default()
+}
+
+/// Returns true iff the point is in the cone described by the i-th vertex and its neighbors.
+fn in_cone(i: usize, vertices: &[(U16Vec3, u32)], pj: U16Vec3) -> bool {
+    let pi = vertices[i].0;
+    let pi1 = vertices[next(i, vertices.len())].0;
+    let pin1 = vertices[prev(i, vertices.len())].0;
+
+    // If P[i] is a convex vertex [ i+1 left or on (i-1,i) ].
+    if left_on(pin1, pi, pi1) {
+        left(pi, pj, pin1) && left(pj, pi, pi1)
+    } else {
+        // Assume (i-1,i,i+1) not collinear.
+        // else P[i] is reflex.
+        !(left_on(pi, pj, pi1) && left_on(pj, pi, pin1))
+    }
+}
+
+/// Returns true iff the segment intersects an edge of the contour. Edges incident to `skip` are ignored.
+fn segment_intersects_contour(
+    d0: U16Vec3,
+    d1: U16Vec3,
+    skip: Option<usize>,
+    vertices: &[(U16Vec3, u32)],
+) -> bool {
+    (0..vertices.len()).any(|k| {
+        let k1 = next(k, vertices.len());
+        // Skip edges incident to the given vertex.
+        if skip == Some(k) || skip == Some(k1) {
+            return false;
+        }
+        let p0 = vertices[k].0;
+        let p1 = vertices[k1].0;
+        if vequal(d0, p0) || vequal(d1, p0) || vequal(d0, p1) || vequal(d1, p1) {
+            return false;
+        }
+        intersect(d0, d1, p0, p1)
+    })
+}
+
 /// Represents a group of related contours.
 /// All contours within the set share the minimum bounds and cell sizes of the set.
 ///
diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9e0fc62..1b424a1 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -1215,13 +1215,13 @@ fn is_diagonal_internal_or_external(
 const INDEX_MASK: usize = 0x0fffffff;
 
 #[inline]
-fn vequal(a: U16Vec3, b: U16Vec3) -> bool {
+pub(crate) fn vequal(a: U16Vec3, b: U16Vec3) -> bool {
     a.xz() == b.xz()
 }
 
 /// Returns true iff segments ab and cd intersect, properly or improperly.
 #[inline]
-fn intersect(a: U16Vec3, b: U16Vec3, c: U16Vec3, d: U16Vec3) -> bool {
+pub(crate) fn intersect(a: U16Vec3, b: U16Vec3, c: U16Vec3, d: U16Vec3) -> bool {
     if intersect_prop(a, b, c, d) {
         return true;
     }
@@ -1248,12 +1248,12 @@ fn collinear(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
 /// Returns true iff c is strictly to the left of the directed
 /// line through a to b.
 #[inline]
-fn left(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
+pub(crate) fn left(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
     area2(a, b, c) < 0
 }
 
 #[inline]
-fn left_on(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
+pub(crate) fn left_on(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
     area2(a, b, c) <= 0
 }
 
-- 
2.43.0


From 025e52a28019faf3455c1a5e03398196671ce56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 11/24] fix: remove superfluous vertices on the tile border

---
 crates/rerecast/src/poly_mesh.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 1b424a1..984c0fe 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -363,7 +363,6 @@ impl ContourSet {
             }
         }
 
-        mesh.polygons.truncate(mesh.npolys * nvp * 2);
         // Remove edge vertices.
         let mut i = 0;
         while i < mesh.nvertices as usize {
@@ -377,7 +376,8 @@ impl ContourSet {
                 // Note: nverts is already decremented inside removeVertex()!
                 // Fixup vertex flags
                 vflags.copy_within((i + 1)..=mesh.nvertices as usize, i);
-                i -= 1;
+                // The next vertex took the index of the removed one.
+                continue;
             }
 
             i += 1;
@@ -559,7 +559,7 @@ impl InternalPolygonNavmesh {
                     continue;
                 }
                 // Collect edges which does not touch the removed vertex.
-                for (j, k) in (0..nv).zip(nv - 1..) {
+                for (j, k) in (0..nv).map(|j| (j, prev(j, nv))) {
                     if p[j] != rem && p[k] != rem {
                         let e = &mut edges[nedges];
                         e.polygon1 = p[k];
@@ -633,20 +633,20 @@ impl InternalPolygonNavmesh {
                     push_front(r, &mut hreg, &mut nhreg);
                     push_front(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 } else if hole[nhole - 1] == ea {
                     // The segment matches the end of the hole boundary.
                     push_back(eb, &mut hole, &mut nhole);
                     push_back(r, &mut hreg, &mut nhreg);
                     push_back(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 }
                 if add {
                     // The edge segment was added, remove it.
                     edges[i] = edges[nedges - 1].clone();
                     nedges -= 1;
                     match_ = true;
+                } else {
+                    i += 1;
                 }
             }
             if !match_ {
@@ -822,7 +822,7 @@ impl InternalPolygonNavmesh {
             let nv = count_poly_verts(p, nvp);
 
             // Collect edges which touches the removed vertex.
-            for (j, k) in (0..nv).zip((nv - 1)..) {
+            for (j, k) in (0..nv).map(|j| (j, prev(j, nv))) {
                 if !(p[j] == rem || p[k] == rem) {
                     continue;
                 }
@@ -854,7 +854,7 @@ impl InternalPolygonNavmesh {
         // There should be no more than 2 open edges.
         // This catches the case that two non-adjacent polygons
         // share the removed vertex. In that case, do not remove the vertex.
-        let num_open_edges = edges.iter().filter(|e| e[2] < 2).count();
+        let num_open_edges = edges.iter().take(nedges).filter(|e| e[2] < 2).count();
         num_open_edges <= 2
     }
 }
-- 
2.43.0


From d993ba93ae3723e9061d441013c3d6da40ab6815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 12/24] fix: keep one region per polygon

---
 crates/rerecast/src/poly_mesh.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 984c0fe..fab1119 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -177,6 +177,7 @@ impl From<InternalPolygonNavmesh> for PolygonNavmesh {
         }
         value.vertices.truncate(value.nvertices as usize);
         value.areas.truncate(value.npolys);
+        value.regions.truncate(value.npolys);
         PolygonNavmesh {
             vertices: value.vertices,
             polygons,
-- 
2.43.0


From bfebe277fc88114be51772f0edf71eb7a2ab940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 13/24] fix: compare long diagonals without truncation

---
 crates/rerecast/src/poly_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index fab1119..d2e78aa 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -1059,7 +1059,7 @@ fn triangulate(
                 let p2 = verts[indices[next(i1, n)] & INDEX_MASK].0;
 
                 let d = p2.as_ivec3() - p0.as_ivec3();
-                let len = d.xz().length_squared() as u16;
+                let len = d.xz().length_squared();
                 if min_len.is_none_or(|min| len < min) {
                     min_len = Some(len);
                     mini = Some(i);
@@ -1083,7 +1083,7 @@ fn triangulate(
                     let p0 = verts[indices[i] & INDEX_MASK].0;
                     let p2 = verts[indices[next(i2, n)] & INDEX_MASK].0;
                     let d = p2.as_ivec3() - p0.as_ivec3();
-                    let len = d.xz().length_squared() as u16;
+                    let len = d.xz().length_squared();
                     if min_len.is_none_or(|min| len < min) {
                         min_len = Some(len);
                         mini = Some(i);
-- 
2.43.0


From 600e593f2cfcd0c1bfa0c0206472de0e085ee5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 14/24] fix: seed height patches with the vertices of the
 polygon mesh

---
 crates/rerecast/src/detail_mesh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index b780369..eaf8677 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -241,7 +241,7 @@ impl DetailNavmesh {
                 chf,
                 p,
                 npoly,
-                &verts,
+                &mesh.vertices,
                 border_size,
                 &mut arr,
                 mesh.regions[i],
@@ -1237,7 +1237,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         queue: &mut Vec<(i32, i32, usize)>,
         region: RegionId,
@@ -1346,7 +1346,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         array: &mut Vec<(i32, i32, usize)>,
     ) {
-- 
2.43.0


From 83f76d66ae51823f05976fcaf2721af3dec039a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 15/24] fix: triangulate polygons when detail sampling is
 disabled

---
 crates/rerecast/src/detail_mesh.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index eaf8677..867b22d 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -438,6 +438,12 @@ fn build_poly_detail(
             }
             j = i;
         }
+    } else {
+        // Without sampling, the hull is the polygon itself.
+        for (i, vertex) in hull.iter_mut().enumerate().take(nin) {
+            *vertex = i;
+        }
+        nhull = nin;
     }
 
     // If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
-- 
2.43.0


From ac7a56438b5f87849b914bccdc3004ce8f61dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:36 +0000
Subject: [PATCH 16/24] fix: reserve detail vertices and triangles without
 underflow

---
 crates/rerecast/src/detail_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 867b22d..99cd974 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -288,7 +288,7 @@ impl DetailNavmesh {
                 while dmesh.vertices.len() + nverts > vcap {
                     vcap += 256;
                 }
-                dmesh.vertices.reserve(vcap - dmesh.vertices.capacity());
+                dmesh.vertices.reserve(vcap - dmesh.vertices.len());
             }
             for vert in &verts[..nverts] {
                 dmesh.vertices.push(Vec3::from(*vert));
@@ -299,7 +299,7 @@ impl DetailNavmesh {
                 while dmesh.triangles.len() + tris.len() > tcap {
                     tcap += 256;
                 }
-                dmesh.triangles.reserve(tcap - dmesh.triangles.capacity());
+                dmesh.triangles.reserve(tcap - dmesh.triangles.len());
             }
             for tri in &tris {
                 dmesh.triangles.push([tri[0], tri[1], tri[2]]);
-- 
2.43.0


From b98d69881388d02aaf9cad39d83d21c1e77f383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 17/24] fix: find a height for every detail sample

---
 crates/rerecast/src/detail_mesh.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 99cd974..eb33bcb 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -1143,6 +1143,9 @@ fn get_height(f: Vec3A, ics: f32, ch: f32, radius: u32, hp: &HeightPatch) -> u16
         // Special case when data might be bad.
         // Walk adjacent cells in a spiral up to 'radius', and look
         // for a pixel which has a valid height.
+        // The walk stops at the first ring that has one, so going on to the end of the patch
+        // matters only where the marker for unset heights would end up in the mesh.
+        let radius = radius.max(hp.width.max(hp.height) as u32);
         let mut x = 1;
         let mut z = 0;
         let mut dx = 1;
-- 
2.43.0


From 057ad0bae3db7bb174b02a65da2d6c136a4f1e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 18/24] fix: keep detail triangulations free of overlaps

---
 crates/rerecast/src/detail_mesh.rs | 39 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index eb33bcb..7b0f763 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -716,33 +716,32 @@ fn complete_facet(
         if u == s || u == t {
             continue;
         }
-        if cross2(pts[s].xz(), pts[t].xz(), pts[u].xz()) > EPS {
+        // Points on one line leave a rest that grows with their coordinates and distances.
+        let (a, b, p) = (pts[s].xz(), pts[t].xz(), pts[u].xz());
+        let scale = a.abs().max(b.abs()).max(p.abs()).max_element();
+        let rounding = 2.0 * f32::EPSILON * scale * (a.distance(b) + a.distance(p));
+        if cross2(a, b, p) > EPS.max(rounding) {
+            // The edges s-u and t-u must not cross any edge of the triangulation. Circles alone do not
+            // rule that out, as they are subject to rounding when points are nearly cocircular.
+            let is_valid = || {
+                !overlap_edges(pts, edges, *nedges, s, u)
+                    && !overlap_edges(pts, edges, *nedges, t, u)
+            };
             let Some(r_squared) = r_squared.as_mut() else {
                 // The circle is not updated yet, do it now.
-                pt = u;
-                r_squared = Some(circum_circle_squared(pts[s], pts[t], pts[u], &mut c));
+                if is_valid() {
+                    pt = u;
+                    r_squared = Some(circum_circle_squared(pts[s], pts[t], pts[u], &mut c));
+                }
                 continue;
             };
             let d_squared = c.xz().distance_squared(pts[u].xz());
-            let tol = 1.0e-3;
-            let threshold_out = *r_squared * (1.0 + tol) * (1.0 + tol);
-            let threshold_in = *r_squared * (1.0 - tol) * (1.0 - tol);
-            if d_squared > threshold_out {
+            if d_squared >= *r_squared {
                 // Outside current circumcircle, skip.
                 continue;
-            } else if d_squared < threshold_in {
-                // Inside safe circumcircle, update circle.
-                pt = u;
-                *r_squared = circum_circle_squared(pts[s], pts[t], pts[u], &mut c);
-            } else {
-                // Inside epsilon circum circle, do extra tests to make sure the edge is valid.
-                // s-u and t-u cannot overlap with s-pt nor t-pt if they exists.
-                if overlap_edges(pts, edges, *nedges, s, u)
-                    || overlap_edges(pts, edges, *nedges, t, u)
-                {
-                    continue;
-                }
-                // Edge is valid.
+            }
+            if is_valid() {
+                // Inside circumcircle, update circle.
                 pt = u;
                 *r_squared = circum_circle_squared(pts[s], pts[t], pts[u], &mut c);
             }
-- 
2.43.0


From 839ce693c92fb92531d284f168cfe7db1d2a2f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 19/24] fix: rasterize into fields without cells, wider than
 32767 cells or filled to the top

The footprint was clamped to an empty range when the field had no cells, was
computed with i16 so that wider fields lost their far cells, and a span
starting at the top of the representable height had no room for its own cell.
---
 crates/rerecast/src/rasterize.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index 01ab468..003a0d6 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -46,16 +46,19 @@ impl Heightfield {
         let inverse_cell_size = 1.0 / self.cell_size;
         let inverse_cell_height = 1.0 / self.cell_height;
 
-        let w = self.width as i16;
-        let h = self.height as i16;
+        let w = self.width as i32;
+        let h = self.height as i32;
+        if w == 0 || h == 0 {
+            return Ok(());
+        }
         // The height of the heightfield AABB
         let by = self.aabb.max[1] - self.aabb.min[1];
 
         // Calculate the footprint of the triangle on the grid's z-axis
         // z0 is the first z cell that the triangle touches
         // z1 is the last z cell that the triangle touches
-        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
-        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
+        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i32;
+        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i32;
 
         // use -1 rather than 0 to cut the polygon properly at the start of the tile
         let z0 = z0.clamp(-1, h - 1);
@@ -106,8 +109,8 @@ impl Heightfield {
                 min_x = min_x.min(in_row[i as usize].x);
                 max_x = max_x.max(in_row[i as usize].x);
             }
-            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
-            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
+            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size).floor() as i32;
+            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size).floor() as i32;
             if x1 < 0 || x0 >= w {
                 continue;
             }
@@ -156,7 +159,7 @@ impl Heightfield {
 
                 // Snap the span to the heightfield height grid.
                 let span_min_cell_index = ((span_min * inverse_cell_height).floor() as i32)
-                    .clamp(0, Span::MAX_HEIGHT as i32)
+                    .clamp(0, Span::MAX_HEIGHT as i32 - 1)
                     as u16;
                 let span_max_cell_index = ((span_max * inverse_cell_height).ceil() as i32)
                     .clamp(span_min_cell_index as i32 + 1, Span::MAX_HEIGHT as i32)
-- 
2.43.0


From 6dc3a4d0b3ca05311aca22251a1ca64ff3d91b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 20/24] fix: refuse heightfields whose sides do not fit into
 u16

The width and height were saturated while the columns were allocated for the
real size, so that rows were addressed with the wrong stride.
---
 crates/rerecast/src/heightfield.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 392a409..897fb5c 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -260,6 +260,10 @@ impl HeightfieldBuilder {
     pub fn build(self) -> Result<Heightfield, HeightfieldBuilderError> {
         let width = (self.aabb.max.x - self.aabb.min.x) / self.cell_size + 0.5;
         let height = (self.aabb.max.z - self.aabb.min.z) / self.cell_size + 0.5;
+        let max_side = u16::MAX as f32 + 1.0;
+        if width >= max_side || height >= max_side {
+            return Err(HeightfieldBuilderError::SideTooLong { width, height });
+        }
         let column_count = width as u128 * height as u128;
         if column_count > usize::MAX as u128 {
             return Err(HeightfieldBuilderError::ColumnCountTooLarge { width, height });
@@ -288,6 +292,14 @@ pub enum HeightfieldBuilderError {
         /// The height of the heightfield along the z-axis in cell units
         height: f32,
     },
+    /// Happens when the width or the height does not fit into a [`u16`].
+    #[error("Heightfield is too large, got {width}*{height} cells but the max along each axis is {max}", max = u16::MAX)]
+    SideTooLong {
+        /// The width of the heightfield along the x-axis in cell units
+        width: f32,
+        /// The height of the heightfield along the z-axis in cell units
+        height: f32,
+    },
 }
 
 /// Errors that can occur when inserting a span into a [`Heightfield`]
-- 
2.43.0


From e28739a12b70b9fb251539575e6363d97ed191db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 21/24] fix: refuse columns with more walkable spans than a
 compact cell can count

---
 crates/rerecast/src/compact_heightfield.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 6c491c0..f41fad3 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -170,6 +170,12 @@ impl Heightfield {
                     if !span.area.is_walkable() {
                         continue;
                     }
+                    if cell.count() == u8::MAX {
+                        return Err(CompactHeightfieldError::TooManyLayers {
+                            max_layer_index: u8::MAX - 1,
+                            layer_index: u8::MAX as u32,
+                        });
+                    }
                     let bot = span.max;
                     let top = span
                         .next
-- 
2.43.0


From 7c67a690883d95c9019934816abbaa284ac96c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 22/24] fix: searching for a height overflowed for large
 simplification errors

The search never needs to go beyond the height patch.
---
 crates/rerecast/src/detail_mesh.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 7b0f763..5eb0ecc 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -157,7 +157,6 @@ impl DetailNavmesh {
         let ch = mesh.cell_height;
         let orig = Vec3A::from(mesh.aabb.min);
         let border_size = mesh.border_size;
-        let height_search_radius = 1.max(mesh.max_edge_error.ceil() as u32);
 
         let mut edges = Vec::with_capacity(64 / 4);
         let mut tris = Vec::with_capacity((512 / 4) * 3);
@@ -254,7 +253,6 @@ impl DetailNavmesh {
                 npoly,
                 sample_distance,
                 sample_max_error,
-                height_search_radius,
                 chf,
                 &hp,
                 &mut verts,
@@ -318,7 +316,6 @@ fn build_poly_detail(
     nin: usize,
     sample_dist: f32,
     sample_max_error: f32,
-    height_search_radius: u32,
     chf: &CompactHeightfield,
     hp: &HeightPatch,
     verts: &mut [Vec3A],
@@ -378,8 +375,7 @@ fn build_poly_detail(
             for (k, pos) in edge.iter_mut().enumerate().take(nn + 1) {
                 let u = k as f32 / nn as f32;
                 *pos = vj + dij * u;
-                pos.y = get_height(*pos, ics, chf.cell_height, height_search_radius, hp) as f32
-                    * chf.cell_height;
+                pos.y = get_height(*pos, ics, chf.cell_height, hp) as f32 * chf.cell_height;
             }
             // Simplify samples.
             let mut idx = [0; DetailNavmesh::MAX_VERTS_PER_EDGE];
@@ -492,7 +488,7 @@ fn build_poly_detail(
                 if dist_to_poly(nin, in_, pt) > -sample_dist / 2.0 {
                     continue;
                 }
-                let y = get_height(pt, ics, chf.cell_height, height_search_radius, hp);
+                let y = get_height(pt, ics, chf.cell_height, hp);
                 samples.push((u16vec3(x as u16, y, z as u16), false));
             }
         }
@@ -1132,7 +1128,7 @@ fn triangulate_hull(
     }
 }
 
-fn get_height(f: Vec3A, ics: f32, ch: f32, radius: u32, hp: &HeightPatch) -> u16 {
+fn get_height(f: Vec3A, ics: f32, ch: f32, hp: &HeightPatch) -> u16 {
     let mut ix = (f.x * ics + 0.01).floor() as i32;
     let mut iz = (f.z * ics + 0.01).floor() as i32;
     ix = (ix - hp.xmin as i32).clamp(0, hp.width as i32 - 1);
@@ -1140,11 +1136,10 @@ fn get_height(f: Vec3A, ics: f32, ch: f32, radius: u32, hp: &HeightPatch) -> u16
     let mut h = hp.data[(ix + iz * hp.width as i32) as usize];
     if h == RC_UNSET_HEIGHT {
         // Special case when data might be bad.
-        // Walk adjacent cells in a spiral up to 'radius', and look
+        // Walk adjacent cells in a spiral up to the end of the patch, and look
         // for a pixel which has a valid height.
-        // The walk stops at the first ring that has one, so going on to the end of the patch
-        // matters only where the marker for unset heights would end up in the mesh.
-        let radius = radius.max(hp.width.max(hp.height) as u32);
+        // The walk stops at the first ring that has one.
+        let radius = hp.width.max(hp.height) as u64;
         let mut x = 1;
         let mut z = 0;
         let mut dx = 1;
-- 
2.43.0


From d91a8fcab841659510f264178db5cde14e232154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 23/24] fix: place the children of a compound collider at their
 own poses

---
 crates/avian_rerecast/src/collider_to_trimesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/avian_rerecast/src/collider_to_trimesh.rs b/crates/avian_rerecast/src/collider_to_trimesh.rs
index d8c84e2..6c6e662 100644
--- a/crates/avian_rerecast/src/collider_to_trimesh.rs
+++ b/crates/avian_rerecast/src/collider_to_trimesh.rs
@@ -93,7 +93,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
     compound.shapes().iter().fold(
         TriMesh::default(),
         |mut compound_trimesh, (isometry, shape)| {
-            let Some(trimesh) =
+            let Some(mut trimesh) =
                 // No need to track recursive compounds because parry panics on nested compounds anyways lol
                 shape_to_trimesh(&shape.as_typed_shape(), subdivisions)
             else {
@@ -105,7 +105,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
                 rotation: Quat::from(isometry.rotation),
             };
 
-            apply_isometry(&mut compound_trimesh, isometry);
+            apply_isometry(&mut trimesh, isometry);
             compound_trimesh.extend(trimesh);
             compound_trimesh
         },
-- 
2.43.0


From 4c15e53a84f2e1d318877ada09415f6c96bf18e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 24/24] fix: draw what is switched on in the editor when
 another scene is loaded

---
 crates/bevy_rerecast_editor/src/visualization.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/bevy_rerecast_editor/src/visualization.rs b/crates/bevy_rerecast_editor/src/visualization.rs
index a55ea98..a3043ca 100644
--- a/crates/bevy_rerecast_editor/src/visualization.rs
+++ b/crates/bevy_rerecast_editor/src/visualization.rs
@@ -29,12 +29,22 @@ pub(super) fn plugin(app: &mut App) {
                     resource_changed::<Navmesh>.or(toggled_gizmo_on(AvailableGizmos::DetailMesh)),
                 ),
             )),
-            draw_navmesh_affector.run_if(toggled_gizmo_on(AvailableGizmos::Affector)),
+            draw_navmesh_affector.run_if(
+                gizmo_enabled(AvailableGizmos::Affector).and(
+                    any_match_filter::<Added<NavmeshAffector>>
+                        .or(toggled_gizmo_on(AvailableGizmos::Affector)),
+                ),
+            ),
             draw_visual.run_if(toggled_gizmo_on(AvailableGizmos::Visual)),
             hide_poly_mesh.run_if(toggled_gizmo_off(AvailableGizmos::PolyMesh)),
             hide_detail_mesh.run_if(toggled_gizmo_off(AvailableGizmos::DetailMesh)),
             hide_affector.run_if(toggled_gizmo_off(AvailableGizmos::Affector)),
-            hide_visual.run_if(toggled_gizmo_off(AvailableGizmos::Visual)),
+            hide_visual.run_if(
+                not(gizmo_enabled(AvailableGizmos::Visual)).and(
+                    any_match_filter::<Added<VisualMesh>>
+                        .or(toggled_gizmo_off(AvailableGizmos::Visual)),
+                ),
+            ),
         ),
     );
 }
-- 
2.43.0

