From 26bef2cb25f1be136badd238bb548afde21aa43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 01/54] fix: define Mesh::wedge_get_side, which was only
 declared

---
 src/mesh/Mesh.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 8d04b11..b8bd70d 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -2074,6 +2074,13 @@ Entity_ID Mesh::wedge_get_cell(const Entity_ID wedgeid) const {
   return side_get_cell(sideid);
 }
 
+inline
+Entity_ID Mesh::wedge_get_side(const Entity_ID wedgeid) const {
+  assert(sides_requested && wedges_requested);
+  assert(side_info_cached);
+  return static_cast<Entity_ID>(wedgeid/2);
+}
+
 inline
 Entity_ID Mesh::wedge_get_face(const Entity_ID wedgeid) const {
   assert(sides_requested && wedges_requested);
-- 
2.43.0


From 7e75d86ea7d3bb5103468a5cedf28b2cf320a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 02/54] fix: compute the centroid of a face of a 1D mesh

---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3d73d11..b198446 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1365,6 +1365,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
     face_get_coordinates(faceid, &fcoords);
 
     JaliGeometry::face1d_get_area(fcoords, geomtype, area);
+    *centroid = fcoords[0];
     JaliGeometry::Point normal(space_dim_);
     normal.set(*area);
 
-- 
2.43.0


From 65e7bfc7621b9bdd924f818fc214fa788fdd2b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 03/54] fix: positive volume and outward normal for every side
 of a 1D mesh

---
 src/mesh/Mesh.cc | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index b198446..2713182 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1527,19 +1527,6 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
       *outward_facet_normal = -vec0/JaliGeometry::norm(vec0);
     }
     
-    // Flip sign depending on which node/edge of the cell the side is
-    // associated with
-
-    Entity_ID nodeid = side_node_ids[sideid][0];
-    Entity_ID cellid = side_cell_id[sideid];
-
-    Entity_ID_List cnodes;
-    cell_get_nodes(cellid, &cnodes);
-    if (nodeid == cnodes[1]) {  // have to reverse sign of volume and normal
-      *side_volume = -(*side_volume);
-      *outward_facet_normal = -(*outward_facet_normal);
-    }
-
     // This is not really defined - nobody should try to use this
     mid_facet_normal->set(0.0);
   }
-- 
2.43.0


From d57b6560dd16ade3d0b88ce46c9b65379ee7d30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 04/54] fix: 2D normal between the wedges of a side starts at
 the edge centre

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 2713182..9b9568b 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1500,7 +1500,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
     JaliGeometry::Point vec3 = scoords[2] - ecen;
 
-    *mid_facet_normal = JaliGeometry::Point(vec1[1], -vec1[0]);
+    *mid_facet_normal = JaliGeometry::Point(vec3[1], -vec3[0]);
 
   } else if (manifold_dim_ == 1) {
     std::vector<JaliGeometry::Point> scoords;
-- 
2.43.0


From ed8c783eff2c94985db732f58b85607fbaf33260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 05/54] fix: replace the side normals of the previous geometry
 in an update

---
 src/mesh/Mesh.cc | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 9b9568b..3d4b5e6 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1101,17 +1101,12 @@ int Mesh::compute_edge_geometric_quantities() const {
 int Mesh::compute_side_geometric_quantities() const {
   side_volumes.resize(num_sides());
 
-  // Cannot use resize for the facet normals because we cannot tell
-  // the initialization operator what the dimensionality of the points
-  // will be, unless we can write a statement like this
-  //
-  //  wedge_facet_normals0.resize(nwedges, Point(3));
-  //
-  // It is also unclear that this is good to do because it will cause
-  // a copy operator to be triggered for each element (?)
+  // Start from scratch each time - the geometry may have been computed
+  // before with other coordinates
 
-  side_outward_facet_normal.reserve(num_sides());
-  side_mid_facet_normal.reserve(num_sides());
+  side_outward_facet_normal.assign(num_sides(),
+                                   JaliGeometry::Point(space_dim_));
+  side_mid_facet_normal.assign(num_sides(), JaliGeometry::Point(space_dim_));
 
   JaliGeometry::Point outward_facet_normal(space_dim_);
   JaliGeometry::Point mid_facet_normal(space_dim_);
@@ -1125,8 +1120,8 @@ int Mesh::compute_side_geometric_quantities() const {
                             &(outward_facet_normal),
                             &(mid_facet_normal));
     }
-    side_outward_facet_normal.push_back(outward_facet_normal);
-    side_mid_facet_normal.push_back(mid_facet_normal);
+    side_outward_facet_normal[s] = outward_facet_normal;
+    side_mid_facet_normal[s] = mid_facet_normal;
   }
 
   side_geometry_precomputed = true;
-- 
2.43.0


From 6b58e3a98d84130e23330a3b14d773fd6ffe0e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 06/54] fix: 1D corner facetization replaces what the list held

---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3d4b5e6..9c7e654 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2179,6 +2179,7 @@ Mesh::corner_get_facetization(const Entity_ID cornerid,
   // ordering is because wedge_get_coordinates comes back in (node, cell) order
   // and node is the facet external to the zone and cell is the facet between
   // the wedges of the side, which is consistent with 2/3D.
+  facetpoints->clear();
   facetpoints->push_back({{0}});
   facetpoints->push_back({{1}});
 }
-- 
2.43.0


From 21d0d805c127d776adce0151cac57d91f18c1331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 07/54] fix: recomputed side, wedge and corner geometry follows
 the current nodes

---
 src/mesh/Mesh.cc | 28 ++++++++++++++++++----------
 src/mesh/Mesh.hh |  6 ++++--
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 9c7e654..263ace4 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1424,7 +1424,8 @@ int Mesh::compute_edge_geometry(const Entity_ID edgeid, double *edge_length,
 void Mesh::compute_side_geometry(Entity_ID const sideid,
                                  double *side_volume,
                                  JaliGeometry::Point *outward_facet_normal,
-                                 JaliGeometry::Point *mid_facet_normal) const {
+                                 JaliGeometry::Point *mid_facet_normal,
+                                 const bool recompute) const {
   if (manifold_dim_ == 3) {
     std::vector<JaliGeometry::Point> scoords;
 
@@ -1436,6 +1437,10 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // will have a normal point inward.
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute) {  // the centers too
+      scoords[2] = face_centroid(side_face_id[sideid], true);
+      scoords[3] = cell_centroid(side_cell_id[sideid], true);
+    }
 
     // vector from node 0 to node 1
     JaliGeometry::Point vec0 = scoords[1] - scoords[0];
@@ -1460,7 +1465,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // face center and zone center. This is common (with a sign change)
     // to the two wedges of the side
 
-    JaliGeometry::Point ecen = edge_centroid(side_edge_id[sideid]);
+    JaliGeometry::Point ecen = 0.5*(scoords[0] + scoords[1]);
     
     JaliGeometry::Point vec3 = scoords[2] - ecen;
     JaliGeometry::Point vec4 = scoords[3] - ecen;
@@ -1475,6 +1480,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // These are always - node coordinate, edge/face center, cell center
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute) scoords[2] = cell_centroid(side_cell_id[sideid], true);
 
     // vector from node 0 to node 1
     JaliGeometry::Point vec0 = scoords[1]-scoords[0];
@@ -1491,7 +1497,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
     *outward_facet_normal = JaliGeometry::Point(vec0[1], -vec0[0]);
 
-    JaliGeometry::Point ecen = edge_centroid(side_edge_id[sideid]);
+    JaliGeometry::Point ecen = 0.5*(scoords[0] + scoords[1]);
 
     JaliGeometry::Point vec3 = scoords[2] - ecen;
 
@@ -1505,6 +1511,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // These are always - node coordinate and cell center
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute) scoords[1] = cell_centroid(side_cell_id[sideid], true);
 
     // vector from node to cell center
     JaliGeometry::Point vec0 = scoords[1]-scoords[0];
@@ -1529,7 +1536,8 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
 
 void Mesh::compute_corner_geometry(const Entity_ID cornerid,
-                                   double *volume) const {
+                                   double *volume,
+                                   const bool recompute) const {
   Entity_ID_List cwedges;
   corner_get_wedges(cornerid, &cwedges);
 
@@ -1537,7 +1545,7 @@ void Mesh::compute_corner_geometry(const Entity_ID cornerid,
   Entity_ID_List::iterator itw = cwedges.begin();
   while (itw != cwedges.end()) {
     Entity_ID w = *itw;
-    *volume += wedge_volume(w);
+    *volume += wedge_volume(w, recompute);
     ++itw;
   }
 }  // compute corner geometry
@@ -1598,7 +1606,7 @@ double Mesh::side_volume(const Entity_ID sideid, const bool recompute) const {
     double side_volume;
     JaliGeometry::Point outward_facet_normal, mid_facet_normal;
     compute_side_geometry(sideid, &side_volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, recompute);
     return side_volume;
   } else {
     return side_volumes[sideid];
@@ -1617,7 +1625,7 @@ double Mesh::wedge_volume(const Entity_ID wedgeid, const bool recompute) const {
     double side_volume;
     JaliGeometry::Point outward_facet_normal, mid_facet_normal;
     compute_side_geometry(sideid, &side_volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, recompute);
     return side_volume/2.0;
   } else {
     return side_volumes[sideid]/2.0;
@@ -1633,7 +1641,7 @@ double Mesh::corner_volume(const Entity_ID cornerid,
 
   if (recompute) {
     double volume;
-    compute_corner_geometry(cornerid, &volume);
+    compute_corner_geometry(cornerid, &volume, recompute);
     return volume;
   } else {
     return corner_volumes[cornerid];
@@ -1957,7 +1965,7 @@ JaliGeometry::Point Mesh::side_facet_normal(const int sideid,
         mid_facet_normal(space_dim_);
     
     compute_side_geometry(sideid, &volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, recompute);
     return outward_facet_normal;
   } else {
     return side_outward_facet_normal[sideid];
@@ -1991,7 +1999,7 @@ JaliGeometry::Point Mesh::wedge_facet_normal(const int wedgeid,
         mid_facet_normal(space_dim_);
         
     compute_side_geometry(sideid, &volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, recompute);
     if (which_facet == 0)
       return outward_facet_normal/2.0;  // wedge facet area = 1/2 side facet
     else
diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index b8bd70d..8e3e769 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -1293,10 +1293,12 @@ class Mesh {
   void compute_side_geometry(const Entity_ID sideid,
                              double *volume,
                              JaliGeometry::Point *outward_facet_normal,
-                             JaliGeometry::Point *mid_facet_normal) const;
+                             JaliGeometry::Point *mid_facet_normal,
+                             const bool recompute = false) const;
 
   void compute_corner_geometry(const Entity_ID cornerid,
-                              double *volume) const;
+                               double *volume,
+                               const bool recompute = false) const;
 
   void cache_type_info() const;
   void cache_cell2face_info() const;
-- 
2.43.0


From 54891f57cc0df724edeb708d873e265ed5b57e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 08/54] fix: Mesh_simple adjacency queries honour the requested
 ownership

---
 src/mesh/mesh_simple/Mesh_simple.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 34002e7..325bd78 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -794,6 +794,9 @@ void Mesh_simple::node_get_cells(const Jali::Entity_ID nodeid,
 
   cellids->clear();
 
+  // All the entities of this serial mesh are owned
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   for (int i = 0; i < ncells; i++)
     cellids->push_back(node_to_cell_[offset+i+1]);
 }
@@ -808,6 +811,9 @@ void Mesh_simple::node_get_faces(const Jali::Entity_ID nodeid,
 
   faceids->clear();
 
+  // All the entities of this serial mesh are owned
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   for (int i = 0; i < nfaces; i++)
     faceids->push_back(node_to_face_[offset+i+1]);
 }
@@ -824,6 +830,9 @@ void Mesh_simple::node_get_cell_faces(const Jali::Entity_ID nodeid,
 
   faceids->clear();
 
+  // All the entities of this serial mesh are owned
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID cellfaceid = cell_to_face_[offset+i];
 
@@ -849,6 +858,9 @@ void Mesh_simple::face_get_cells_internal(const Jali::Entity_ID faceid,
 
   cellids->clear();
 
+  // All the entities of this serial mesh are owned
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   if (face_to_cell_[offset] != -1)
     cellids->push_back(face_to_cell_[offset]);
   if (face_to_cell_[offset+1] != -1)
@@ -875,6 +887,9 @@ void Mesh_simple::cell_get_face_adj_cells(const Jali::Entity_ID cellid,
 
   fadj_cellids->clear();
 
+  // All the entities of this serial mesh are owned
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID faceid = cell_to_face_[offset];
 
@@ -905,6 +920,9 @@ void Mesh_simple::cell_get_node_adj_cells(const Jali::Entity_ID cellid,
 
   nadj_cellids->clear();
 
+  // All the entities of this serial mesh are owned
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL) return;
+
   for (int i = 0; i < nodes_per_cell_; i++) {
     Entity_ID nodeid = cell_to_node_[offset+i];
 
-- 
2.43.0


From 7d7493130a8221d0197e5063dfc5863c6aa58b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 09/54] fix: faces of a node of a Mesh_simple brick include its
 xz and yz faces

---
 src/mesh/mesh_simple/Mesh_simple.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 325bd78..9fd2593 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -548,22 +548,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
   // finally we do the yz faces
@@ -581,22 +581,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
 
-- 
2.43.0


From e6e25c93f1f3ab21a5a502c1e3d9712514f2284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 10/54] fix: a mesh tile lists its sides when sides were
 requested, not wedges

---
 src/mesh/MeshTile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 9ed9800..5f7f2e4 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -249,7 +249,7 @@ MeshTile::MeshTile(Mesh& parent_mesh,
                         edgeids_ghost_.begin(), edgeids_ghost_.end());
   }
 
-  if (request_wedges) {
+  if (request_sides) {
     for (auto const& c : cellids_owned_) {
       std::vector<int> csides;
       mesh_.cell_get_sides(c, &csides);
-- 
2.43.0


From 91f122e35b287f192b37608917bb583062a25dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 11/54] fix: block partitioning of a mesh that has no such
 blocks neither hangs nor loses cells

---
 src/mesh/Mesh.cc            | 22 +++++++++++++++++++---
 src/mesh/block_partition.cc |  3 ++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 263ace4..2c36591 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3128,6 +3128,21 @@ Mesh::get_partitioning(int const num_parts,
 
     get_partitioning_by_blocks(num_parts, partitions);
 
+    // If the mesh could not be divided into blocks, some owned cells
+    // are in none of the partitions
+
+    size_t ncells_in_parts = 0;
+    for (auto const& part : *partitions)
+      ncells_in_parts += part.size();
+
+    if (ncells_in_parts != num_cells<Entity_type::PARALLEL_OWNED>()) {
+      std::cerr << "Mesh::get_partitioning() - " <<
+          "Could not partition mesh into blocks. Partitioning by entity IDs\n";
+      for (auto & part : *partitions)
+        part.clear();
+      get_partitioning_by_index_space(num_parts, partitions);
+    }
+
   } else {
     if (space_dimension() != 1) {
       std::cerr << "Mesh::get_partitioning() - " <<
@@ -3376,9 +3391,10 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
   std::array<double, 6> iarray0 = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
   std::vector<std::array<double, 6>> blocklimits(num_parts, iarray0);
 
-  block_partition_regular_mesh(space_dim_, &(domainlimits[0]),
-                               &(num_cells_in_dir[0]), num_parts,
-                               &block_start_indices, &block_num_cells);
+  if (!block_partition_regular_mesh(space_dim_, &(domainlimits[0]),
+                                    &(num_cells_in_dir[0]), num_parts,
+                                    &block_start_indices, &block_num_cells))
+    return;
   
   std::array<double, 3> szdelta;
   for (int d = 0; d < space_dim_; d++)
diff --git a/src/mesh/block_partition.cc b/src/mesh/block_partition.cc
index e4e3bc6..17d43c5 100644
--- a/src/mesh/block_partition.cc
+++ b/src/mesh/block_partition.cc
@@ -89,7 +89,8 @@ int block_partition_regular_mesh(int const dim,
   int ncells_total = 1;
   for (int i = 0; i < dim; i++)
     ncells_total *= num_cells_in_dir[i];
-  assert (num_blocks_requested <= ncells_total);
+  if (num_blocks_requested > ncells_total)
+    return 0;  // cannot make that many blocks of at least one cell
     
   
   if (num_blocks_requested > 1) {
-- 
2.43.0


From 0ea6579b3b64aae0a604379e54677f52e04033cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 12/54] fix: a 3D mesh can be made without faces

---
 src/mesh/Mesh.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 2c36591..fcbd4b8 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -556,7 +556,8 @@ void Mesh::cache_corner_info() const {
 void Mesh::update_geometric_quantities() {
   if (faces_requested) compute_face_geometric_quantities();
   if (edges_requested) compute_edge_geometric_quantities();
-  compute_cell_geometric_quantities();
+  if (manifold_dim_ != 3 || faces_requested)  // 3D cells need their faces
+    compute_cell_geometric_quantities();
   if (sides_requested || wedges_requested) compute_side_geometric_quantities();
   if (corners_requested) compute_corner_geometric_quantities();
 }
-- 
2.43.0


From ce722057c40697f8ad6fc0103112d2fcd55d62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 13/54] fix: METIS partitioning into a single part does not
 write past the partitions

---
 src/mesh/Mesh.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index fcbd4b8..ab8c70c 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3190,6 +3190,11 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   std::cerr << "Partitioning mesh on each compute node into " << num_parts <<
       " parts using METIS\n";
 
+  if (num_parts == 1) {  // METIS would number the only part 1, not 0
+    (*partitions)[0] = cells<Entity_type::PARALLEL_OWNED>();
+    return;
+  }
+
   // Build the adjacency info
 
   int ncells_owned = num_cells<Entity_type::PARALLEL_OWNED>();
-- 
2.43.0


From ab3ef11771bf79741e837aa189d9f438d526357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 14/54] fix: point_in_polyhed steps past the nodes of
 triangular faces

---
 src/geometry/Geometry.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index d6092c2..4ade442 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -255,10 +255,10 @@
               return false;
 
           }  // for each edge of face
-
-          offset += nfnodes[i];
         }
 
+        offset += nfnodes[i];
+
       }  // for each face
 
       return true;
-- 
2.43.0


From fc88ad1d5225f319ff869c064a2aee5f91ce5ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 15/54] fix: adding an owned entity to a mesh set keeps the
 positions of its ghosts

---
 src/mesh/MeshSet.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 6363aba..6df66d6 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -112,7 +112,11 @@ void MeshSet::add_entity(Entity_ID const& mesh_entity) {
     entityids_owned_.push_back(mesh_entity);
     entityids_all_.insert(entityids_all_.begin()+nowned_old, mesh_entity);
 
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = nowned_old;
+    if (have_reverse_map_) {  // the ghost entities moved up by one as well
+      int nall = entityids_all_.size();
+      for (int i = nowned_old; i < nall; i++)
+        mesh2subset_[entityids_all_[i]] = i;
+    }
 
   } else if (etype == Entity_type::PARALLEL_GHOST) {
 
-- 
2.43.0


From 89c45c984917c14bd441512371d7bca3f5a22fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 16/54] fix: adding a list of entities to a mesh set keeps
 ghosts and positions apart

---
 src/mesh/MeshSet.cc | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 6df66d6..298f655 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -172,7 +172,6 @@ void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
 
 void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
   int nowned_old = entityids_owned_.size();
-  int nghost_old = entityids_ghost_.size();
   int nall = in_entities.size();
   int nowned = 0;
   int nghost = 0;
@@ -187,7 +186,7 @@ void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
     entityids_owned_.insert(entityids_owned_.end(), in_entities.begin(),
                             in_entities.end());
   else if (nall == nghost)
-    entityids_owned_.insert(entityids_ghost_.end(), in_entities.begin(),
+    entityids_ghost_.insert(entityids_ghost_.end(), in_entities.begin(),
                             in_entities.end());
   else
     for (auto const& mesh_entity : in_entities)
@@ -196,27 +195,18 @@ void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
   // entityids_all should always have owned entities first and ghost
   // entities last - so we can't just put in entities at the end -
   // we have to make a new list with the updated owned and ghost
-  // entities and concatenate them (if there are any ghosts)
+  // entities and concatenate them
   
-  if (entityids_ghost_.size()) {
-    std::vector<Entity_ID> tmp_list(entityids_owned_);
-    tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
-                    entityids_ghost_.end());
-    entityids_all_.swap(tmp_list);
-  } else
-    entityids_all_.insert(entityids_all_.begin(), in_entities.begin(),
-                          in_entities.end());
+  std::vector<Entity_ID> tmp_list(entityids_owned_);
+  tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
+                  entityids_ghost_.end());
+  entityids_all_.swap(tmp_list);
 
   if (have_reverse_map_) {  // have to update mesh to subset map
     // new owned entities should have gone in after old owned entities
-    int start = nowned_old;
-    for (int i = start; i < start + nowned; i++)
-      mesh2subset_[entityids_all_[i]] = i;
-    
-    // new ghost entities should have gone in after old+new owned
-    // entities and old ghost entities
-    start = nowned_old + nowned + nghost_old;
-    for (int i = start; i < start + nghost; i++)
+    // and before all ghost entities
+    int nall_new = entityids_all_.size();
+    for (int i = nowned_old; i < nall_new; i++)
       mesh2subset_[entityids_all_[i]] = i;
   }
 }
-- 
2.43.0


From b67de9d059a4e60a4c562be41ee795f6b4b43dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 17/54] fix: removing entities from a mesh set keeps its order
 and positions

---
 src/mesh/MeshSet.cc | 47 +++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 298f655..2ab92b4 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -156,15 +156,17 @@ void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
     else
       return;  // No other type like BOUNDARY_GHOST can be part of set
 
-    size = entityids_all_.size();
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-1];  // replace mesh_entity with last entry
-      entityids_all_.resize(size-1);
-    }
+    // owned entities first and ghost entities last
+    entityids_all_ = entityids_owned_;
+    entityids_all_.insert(entityids_all_.end(), entityids_ghost_.begin(),
+                          entityids_ghost_.end());
 
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = -1;
+    if (have_reverse_map_) {
+      mesh2subset_[mesh_entity] = -1;
+      int nall = entityids_all_.size();
+      for (int i = 0; i < nall; i++)
+        mesh2subset_[entityids_all_[i]] = i;
+    }
   }
 
 
@@ -223,9 +225,9 @@ void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
   for (auto const& mesh_entity : in_entities) {
     Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
     if (etype == Entity_type::PARALLEL_OWNED) {
-      auto const& it = std::find(entityids_owned_.begin(),
-                                 entityids_owned_.end(), mesh_entity);
-      if (it != entityids_owned_.end()) {
+      auto const& last = entityids_owned_.end()-ndel;
+      auto const& it = std::find(entityids_owned_.begin(), last, mesh_entity);
+      if (it != last) {
         *it = entityids_owned_[size-ndel-1];
         ndel++;
       }
@@ -236,28 +238,23 @@ void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
   size = entityids_ghost_.size();
   ndel = 0;
   for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_ghost_.begin(),
-                               entityids_ghost_.end(), mesh_entity);
-    if (it != entityids_ghost_.end()) {
+    auto const& last = entityids_ghost_.end()-ndel;
+    auto const& it = std::find(entityids_ghost_.begin(), last, mesh_entity);
+    if (it != last) {
       *it = entityids_ghost_[size-ndel-1];
       ndel++;
     }
   }
   entityids_ghost_.resize(size-ndel);
   
-  size = entityids_all_.size();
-  ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-ndel-1];
-      ndel++;
-    }
-  }
-  entityids_all_.resize(size-ndel);
+  // owned entities first and ghost entities last
+  entityids_all_ = entityids_owned_;
+  entityids_all_.insert(entityids_all_.end(), entityids_ghost_.begin(),
+                        entityids_ghost_.end());
 
   if (have_reverse_map_) {
+    for (auto const& mesh_entity : in_entities)
+      mesh2subset_[mesh_entity] = -1;
     int nall = entityids_all_.size();
     for (int i = 0; i < nall; i++)
       mesh2subset_[entityids_all_[i]] = i;
-- 
2.43.0


From 37362ff0e5e86ca1d6960908968eae0130ffba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 18/54] fix: the complement of mesh sets has the ghost entities
 it should

---
 src/mesh/MeshSet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 2ab92b4..7343180 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -506,7 +506,7 @@ complement(std::vector<std::shared_ptr<MeshSet>> inpsets, bool temporary) {
   
   Entity_ID_List ghost_list;
   ghost_list.reserve(nent_ghost - setunion->entityids_ghost_.size());
-  for (int ent = 0; ent < nent_ghost; ent++)
+  for (int ent = nent_owned; ent < nent_owned+nent_ghost; ent++)
     if (std::find(setunion->entityids_ghost_.begin(),
                   setunion->entityids_ghost_.end(),
                   ent) == setunion->entityids_ghost_.end())
-- 
2.43.0


From 40417956ea19d40b11002701183dab68056ee306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 19/54] fix: subtracting no sets from a mesh set is not an
 error

---
 src/mesh/MeshSet.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 7343180..57a26ca 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -372,7 +372,10 @@ subtract(std::shared_ptr<MeshSet> const& set0,
   }
 
   // Make a temporary union of all the sets to be subtracted
-  std::shared_ptr<MeshSet> setunion = merge(subtractsets, true);
+  std::shared_ptr<MeshSet> setunion = subtractsets.size() ?
+      merge(subtractsets, true) :
+      std::make_shared<MeshSet>("", set0->mesh_, set0->kind_, Entity_ID_List(),
+                                Entity_ID_List(), false);
 
   // Add elements that are in set0 and but not in the rest of the sets
   // to the result
-- 
2.43.0


From 1d90a11fcfe7d86adf477bbfac9093e24206a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 20/54] fix: a region used in a logical region still gets sets
 of all its entity kinds

---
 src/mesh/Mesh.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index ab8c70c..12840c5 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2396,10 +2396,6 @@ void Mesh::init_sets_from_geometric_model(
       // We have to account for users querying any type of entity on
       // the region
 
-      auto mset = find_meshset(rgn->name(), Entity_kind::CELL);
-      if (mset) continue;
-
-      
       std::vector<Entity_kind> entity_kinds;
       auto it = region_to_entity_kinds_map.find(rgn->name());
       if (it != region_to_entity_kinds_map.end())
@@ -2441,7 +2437,8 @@ void Mesh::init_sets_from_geometric_model(
       }
 
       for (Entity_kind entity_kind : entity_kinds)
-        mset = build_set_from_region(rgn->name(), entity_kind, false);
+        if (!find_meshset(rgn->name(), entity_kind))
+          build_set_from_region(rgn->name(), entity_kind, false);
     }
   }
 }  // init_sets_from_geometric_model (must be called before querying sets from regions)
-- 
2.43.0


From 3fcdc196b646651a226ad4ec1842dc338a586b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 21/54] fix: valid_region_name knows all spellings of a labeled
 set's entity kind

---
 src/mesh/Mesh.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 12840c5..062c54a 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2511,6 +2511,10 @@ bool Mesh::valid_region_name(std::string name, Entity_kind kind) const {
             dynamic_cast<JaliGeometry::LabeledSetRegionPtr> (rgn);
         std::string entity_type = lsrgn->entity_str();
 
+        // can also be given as Entity_kind::CELL etc.
+        std::size_t pos = entity_type.rfind("::");
+        if (pos != std::string::npos) entity_type.erase(0, pos+2);
+
         if ((kind == Entity_kind::CELL && entity_type == "CELL") ||
             (kind == Entity_kind::FACE && entity_type == "FACE") ||
             (kind == Entity_kind::EDGE && entity_type == "EDGE") ||
-- 
2.43.0


From 5f8914112a4126099d373f24209a69deb71661e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 22/54] fix: the cell set of a point region has every cell that
 contains the point

---
 src/mesh/Mesh.cc | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 062c54a..ebebe30 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2688,34 +2688,16 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
                             owned_cells, ghost_cells, with_reverse_map);
 
       } else if (region->type() == JaliGeometry::Region_type::POINT) {
-        JaliGeometry::Point vpnt(spacedim);
         JaliGeometry::Point rgnpnt(spacedim);
 
         rgnpnt = ((JaliGeometry::PointRegionPtr)region)->point();
 
-        int nnode = Mesh::num_entities(Entity_kind::NODE,
-                                       Entity_type::ALL);
-
-        double mindist2 = 1.e+16;
-        int minnode = -1;
-        for (int inode = 0; inode < nnode; inode++) {
-          node_get_coordinates(inode, &vpnt);
-
-          double dist2 = (vpnt-rgnpnt)*(vpnt-rgnpnt);
-          if (dist2 < mindist2) {
-            mindist2 = dist2;
-            minnode = inode;
-            if (mindist2 <= 1.0e-32)
-              break;
-          }
-        }
-
-        Entity_ID_List cells1;
-        node_get_cells(minnode, Entity_type::ALL, &cells1);
+        // The cells containing the point need not be among the cells
+        // of the node closest to it, so check all of them
 
-        int ncells = cells1.size();
-        for (int ic = 0; ic < ncells; ic++) {
-          Entity_ID icell = cells1[ic];
+        int ncells = Mesh::num_entities(Entity_kind::CELL,
+                                        Entity_type::ALL);
+        for (int icell = 0; icell < ncells; icell++) {
 
           // Check if point is contained in cell
           if (point_in_cell(rgnpnt, icell)) {
-- 
2.43.0


From 9ae0ece6f5469f45f93687608c172e05198ff80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 23/54] fix: sets of logical regions that name one component
 once or twice

---
 src/mesh/Mesh.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index ebebe30..4fc02e8 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2976,14 +2976,20 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
 
     if (boolregion->operation() == JaliGeometry::Bool_type::COMPLEMENT)
       mset = complement(msets, temporary);
-    else if (boolregion->operation() == JaliGeometry::Bool_type::UNION)
+    else if (boolregion->operation() == JaliGeometry::Bool_type::UNION) {
+      // the union of one set is that set itself, so start with no
+      // entities to get a new set that can be renamed
+      msets.insert(msets.begin(),
+                   std::make_shared<MeshSet>(setname, *this, kind,
+                                             Entity_ID_List(), Entity_ID_List(),
+                                             with_reverse_map));
       mset = merge(msets, temporary);
+    }
     else if (boolregion->operation() == JaliGeometry::Bool_type::INTERSECT)
       mset = intersect(msets, temporary);
     else if (boolregion->operation() == JaliGeometry::Bool_type::SUBTRACT) {
-      std::vector<std::shared_ptr<MeshSet>> msets1;
-      for (auto const& set : msets)
-        if (set != msets[0]) msets1.push_back(set);
+      std::vector<std::shared_ptr<MeshSet>> msets1(msets.begin()+1,
+                                                   msets.end());
       mset = subtract(msets[0], msets1, temporary);      
     }
 
-- 
2.43.0


From a20ba101c0c4c13542a18f84e65d4a57559f22db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 24/54] fix: sets on a tile include its ghosts that the mesh
 owns

---
 src/mesh/MeshTile.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 5f7f2e4..3aaebdb 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -382,7 +382,8 @@ void MeshTile::get_set_entities(const Set_Name setname, const Entity_kind kind,
 void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::NODE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::NODE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -406,7 +407,8 @@ void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::EDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::EDGE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -430,7 +432,8 @@ void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::FACE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::FACE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -454,7 +457,8 @@ void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::SIDE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::SIDE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -478,7 +482,8 @@ void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_wedges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::WEDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::WEDGE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -503,7 +508,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
                                   const Entity_type type,
                                   Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CORNER, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CORNER, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -527,7 +533,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
 void MeshTile::get_cells_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CELL, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CELL, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
-- 
2.43.0


From a3389fc9769703d141c0d48f50c8edbdd7077124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 25/54] fix: a polygon region whose normal points backwards is
 projected along it

---
 src/geometry/PolygonRegion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index 237ed7e..bad2d77 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -144,8 +144,8 @@ void PolygonRegion::init() {
     int dmax = -1;
     double maxlen = -1;
     for (int i = 0; i < 3; i++)
-      if (normal_[i] > maxlen) {
-        maxlen = normal_[i];
+      if (fabs(normal_[i]) > maxlen) {
+        maxlen = fabs(normal_[i]);
         dmax = i;
       }
 
-- 
2.43.0


From 916ee947695ce9ac98b76db4c78c67dd6befd12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 26/54] fix: a polygon region has one dimension less than its
 space

---
 src/geometry/PolygonRegion.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index bad2d77..6dab226 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -71,7 +71,7 @@ PolygonRegion::PolygonRegion(const std::string name, const unsigned int id,
                              const unsigned int num_points,
                              const std::vector<Point>& points,
                              const LifeCycle_type lifecycle)
-  : Region(name,id,points[0].dim(),lifecycle), num_points_(num_points),
+  : Region(name,id,points[0].dim()-1,lifecycle), num_points_(num_points),
     points_(points),normal_(points[0].dim()),elim_dir_(0)
 {
   init();
@@ -91,10 +91,12 @@ PolygonRegion::~PolygonRegion(void)
 
 void PolygonRegion::init() {
 
-  if (num_points_ < dimension()) {
+  const int space_dim = points_[0].dim();
+
+  if (num_points_ < space_dim) {
     std::stringstream tempstr;
     tempstr << "\nDimension " << dimension() <<
-      " regions need to be specified by at least " << dimension() <<
+      " regions need to be specified by at least " << space_dim <<
       " points\n";
     Errors::Message mesg(tempstr.str());
     Exceptions::Jali_throw(mesg);
@@ -107,14 +109,14 @@ void PolygonRegion::init() {
 //    }
 //  }
 
-  if (dimension() == 2) {
+  if (space_dim == 2) {
     Point vec = points_[1] - points_[0];
     vec /= norm(vec);
     normal_.set(vec[1],-vec[0]);
 
     elim_dir_ = (vec[0] < vec[1]) ? 0 : 1;
   }
-  else if (dimension() == 3) {
+  else if (space_dim == 3) {
     Point vec0 = points_[2]-points_[1];
     Point vec1 = points_[0]-points_[1];
     normal_ = vec0^vec1;
@@ -190,7 +192,7 @@ PolygonRegion::inside(const Point& p) const
 
 
   bool result(false);
-  if (dimension() == 2) {
+  if (p.dim() == 2) {
     // Now check if it lies in the line segment
 
     // vector from start of segment to point
-- 
2.43.0


From dab8ef3a0310ca8d426287dd8a12cb1fcef162f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 27/54] fix: the end points of a 2D polygon region are inside
 it

---
 src/geometry/PolygonRegion.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index 6dab226..9087f51 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -207,8 +207,9 @@ PolygonRegion::inside(const Point& p) const
 
     double dp = vec0*vec1;
 
-    // projection of vec0 along segment lies inside the segment
-    if (dp >= 0 && dp <= slen) {
+    // projection of vec0 along segment lies inside the segment (up to
+    // the tolerance used below)
+    if (dp >= -1.0e-08 && dp <= slen + 1.0e-08) {
 
       // projected point along line segment
       Point p1 = points_[0] + dp*vec1;
-- 
2.43.0


From 4e9067450eae9fb5dd064c74afc04f538be6214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 28/54] fix: a domain can be made from lists of models and
 regions

---
 src/geometry/Domain.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Domain.cc b/src/geometry/Domain.cc
index a1d5a74..e3ded32 100644
--- a/src/geometry/Domain.cc
+++ b/src/geometry/Domain.cc
@@ -120,7 +120,7 @@ Domain::Domain(const unsigned int dim,
   spatial_dimension_(dim), GeometricModels(in_geometric_models),
   FreeRegions(in_Regions)
 {
-  if (dim != 2 || dim != 3) {
+  if (dim != 2 && dim != 3) {
     std::cerr << "Only 2D and 3D domains are supported" << std::endl;
     throw std::exception();
   }
-- 
2.43.0


From 2ef3ba4226d42b1f885685b4935f190dd80e34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 29/54] fix: the copy of a logical region has its operation and
 components

---
 src/geometry/LogicalRegion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/LogicalRegion.cc b/src/geometry/LogicalRegion.cc
index 86e98f1..cc04708 100644
--- a/src/geometry/LogicalRegion.cc
+++ b/src/geometry/LogicalRegion.cc
@@ -105,7 +105,7 @@ LogicalRegion::LogicalRegion(const std::string name,
 }
 
 LogicalRegion::LogicalRegion(const LogicalRegion& old)
-  : Region(old)
+  : Region(old), operation_(old.operation_), region_names_(old.region_names_)
 {
   // empty
 }
-- 
2.43.0


From e76b611d6d78fe5de5455fecc27f381a86cc8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 30/54] fix: the copy of a labeled set region has its label

---
 src/geometry/LabeledSetRegion.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/LabeledSetRegion.cc b/src/geometry/LabeledSetRegion.cc
index 15cfdf8..46bb9f8 100644
--- a/src/geometry/LabeledSetRegion.cc
+++ b/src/geometry/LabeledSetRegion.cc
@@ -84,7 +84,8 @@ LabeledSetRegion::LabeledSetRegion(const std::string name,
 }
 
 LabeledSetRegion::LabeledSetRegion(const LabeledSetRegion& old)
-  : Region(old)
+  : Region(old), entity_str_(old.entity_str_), file_(old.file_),
+    format_(old.format_), label_(old.label_)
 {
   // empty
 }
-- 
2.43.0


From 78a79c86128fcddbd3f973d62b667bef990aa94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 31/54] fix: a 1D Mesh_simple keeps the geometric model it is
 given

---
 src/mesh/mesh_simple/Mesh_simple.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 9fd2593..3c05581 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -148,6 +148,8 @@ Mesh_simple::Mesh_simple(const std::vector<double>& x,
        partitioner, geom_type, mycomm) {
   set_space_dimension(1);
   set_manifold_dimension(1);
+  if (gm != (JaliGeometry::GeometricModelPtr) NULL)
+    Mesh::set_geometric_model(gm);
 
   assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
 
-- 
2.43.0


From 55f53705dd8807000f9db8ce0399cbc07ef31b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 32/54] fix: a point scaled or set by its own components uses
 their old values

---
 src/geometry/Point.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/geometry/Point.hh b/src/geometry/Point.hh
index 75e323f..92e1f52 100644
--- a/src/geometry/Point.hh
+++ b/src/geometry/Point.hh
@@ -117,12 +117,12 @@ class Point {
     d = N;
     std::copy(val, val+d, xyz);
   }
-  void set(const double& x, const double& y) {
+  void set(const double x, const double y) {
     d = 2;
     xyz[0] = x;
     xyz[1] = y;
   }
-  void set(const double& x, const double& y, const double& z) {
+  void set(const double x, const double y, const double z) {
     d = 3;
     xyz[0] = x;
     xyz[1] = y;
@@ -156,11 +156,12 @@ class Point {
     for (int i = 0; i < d; i++) xyz[i] -= p[i];
     return *this;
   }
-  Point& operator*=(const double& c) {
+  // scalars are taken by value as they may be components of this point
+  Point& operator*=(const double c) {
     for (int i = 0; i < d; i++) xyz[i] *= c;
     return *this;
   }
-  Point& operator/=(const double& c) {
+  Point& operator/=(const double c) {
     for (int i = 0; i < d; i++) xyz[i] /= c;
     return *this;
   }
-- 
2.43.0


From 64c1a3a2ae70a0d243ddd41edce8fee02041fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 33/54] fix: the volume of a tetrahedron does not depend on the
 order of its vertices

---
 src/geometry/Geometry.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index 4ade442..273ba4e 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -99,10 +99,15 @@
       if (np == 4) {  // is a tetrahedron
 
         *centroid = (ccoords[0]+ccoords[1]+ccoords[2]+ccoords[3])/4.0;
-        v1 = ccoords[1]-ccoords[0];
-        v2 = ccoords[2]-ccoords[0];
-        v3 = ccoords[3]-ccoords[0];
-        *volume = (v1^v2)*v3;
+
+        // The vertices are in no particular order so it is the first
+        // face that tells the orientation; the tet formed by any face
+        // and the centroid has a fourth of the volume
+
+        v1 = fcoords[0]-(*centroid);
+        v2 = fcoords[1]-(*centroid);
+        v3 = fcoords[2]-(*centroid);
+        *volume = 4*((v1^v2)*v3);
 
       } else {  // if (np > 4), polyhedron with possibly curved faces
 
-- 
2.43.0


From 4ecac795d0f994701c8b7a0bb25ae7263253abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 34/54] fix: the area of an inverted triangle is negative like
 that of other inverted polygons

---
 src/geometry/Geometry.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index 273ba4e..c39ebad 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -317,6 +317,9 @@
 
         (*normal) = 0.5*v1^v2;
 
+        if (dim == 2 && (*normal)[0] <= 0.0)
+          negvol = true;
+
         (*area) = norm(*normal);
         (*centroid) = center;
       } else {
-- 
2.43.0


From 379cf98ba5d7f3b9ded4b300bce90ae9dfb84379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 35/54] fix: the vectors of an entity kind are the ones added
 for it, not their predecessors

---
 src/statemanager/JaliState.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index d3ee913..ac21aeb 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1117,7 +1117,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1171,7 +1171,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1224,7 +1224,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
-- 
2.43.0


From d343ac04bd573b8b2913a62d5a1db1683f26e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 36/54] fix: the materials of the cells are renumbered when a
 material is removed

---
 src/statemanager/JaliState.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 2b3ef75..9205377 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -46,6 +46,7 @@
 
 */
 
+#include <algorithm>
 #include <cassert>
 #include <memory>
 
@@ -103,11 +104,11 @@ void State::rem_material(int m) {
   std::shared_ptr<MeshSet> matset = material_cellsets_[m];
   if (!matset) return;
 
-  for (auto const& c : material_cellsets_[m]->entities()) {
-    int nmats = cell_materials_[c].size();
-    for (int i = 0; i < nmats; i++)
-      if (m == cell_materials_[c][i])
-        cell_materials_[c].erase(cell_materials_[c].begin()+i);
+  // Drop the material from its cells; the materials after it move down by one
+  for (auto & cmats : cell_materials_) {
+    cmats.erase(std::remove(cmats.begin(), cmats.end(), m), cmats.end());
+    for (auto & cm : cmats)
+      if (cm > m) cm--;
   }
 
   material_cellsets_.erase(material_cellsets_.begin()+m);
-- 
2.43.0


From 74f6d56d988154e784a2d52eff4569f03d761d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 37/54] fix: materials of cells and multi-material data follow
 the cells of the material sets

---
 src/statemanager/JaliState.cc      | 26 +++++++++++++++++++-------
 src/statemanager/JaliStateVector.h | 15 +++++++++++++++
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 9205377..0b280a5 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -84,14 +84,14 @@ void State::add_material(std::string const& matname,
   if (cell_materials_.size() == 0)
     cell_materials_.resize(mymesh_->num_entities(Jali::Entity_kind::CELL,
                                                  Jali::Entity_type::ALL));
-  for (auto const& c : matcells)
+  for (auto const& c : matset->entities())
     cell_materials_[c].push_back(matid);
 
   // GO TO EACH MMStateVector AND ADD ENTRIES FOR THIS MATERIAL
   for (auto &sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->add_material(matcells.size());
+      if (mv) mv->add_material(matset->num_entities());
     }
   }
 }
@@ -126,16 +126,28 @@ void State::rem_material(int m) {
 
 void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   assert(m < material_cellsets_.size());
-  material_cellsets_[m]->add_entities(cells);
+  std::shared_ptr<MeshSet> matset = material_cellsets_[m];
+
+  size_t nowned_old = matset->num_entities(Entity_type::PARALLEL_OWNED);
+  size_t nghost_old = matset->num_entities(Entity_type::PARALLEL_GHOST);
+
+  matset->add_entities(cells);
+
+  // The set takes only owned and ghost cells and lists the owned ones
+  // first, so the new owned cells come before the old ghost cells
+  std::vector<int> const& allcells = matset->entities();
+  size_t nowned = matset->num_entities(Entity_type::PARALLEL_OWNED);
+  size_t nghost = matset->num_entities(Entity_type::PARALLEL_GHOST);
 
-  for (auto const& c : cells)
-    cell_materials_[c].push_back(m);
+  for (size_t i = nowned_old; i < nowned; i++)
+    cell_materials_[allcells[i]].push_back(m);
+  for (size_t i = nowned + nghost_old; i < nowned + nghost; i++)
+    cell_materials_[allcells[i]].push_back(m);
 
   for (auto & sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      int size = mv->size(m);
-      mv->resize(m, size+cells.size());
+      mv->add_cells(m, nowned_old, nowned - nowned_old, nghost - nghost_old);
     }
   }
 }
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 87936c8..44d37b2 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -569,6 +569,11 @@ class MultiStateVectorBase : public StateVectorBase {
   /// Add a material and its entries to the vector
   virtual void add_material(int ncells) = 0;
 
+  /// Add entries for new cells of a material (new owned cells go after
+  /// its old owned cells, new ghost cells at the end)
+  virtual void add_cells(int m, size_t nowned_old, size_t nowned_new,
+                         size_t nghost_new) = 0;
+
   // Remove a material and its entries from the vector
   virtual void rem_material(int m) = 0;
 
@@ -955,6 +960,16 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
     (*mydata_)[nmats].resize(ncells);
   }
 
+  /// Add entries for new cells of a material (new owned cells go after
+  /// its old owned cells, new ghost cells at the end)
+  void add_cells(int m, size_t nowned_old, size_t nowned_new,
+                 size_t nghost_new) {
+    std::vector<T>& matdata = (*mydata_)[m];
+    size_t pos = std::min(nowned_old, matdata.size());
+    matdata.insert(matdata.begin()+pos, nowned_new, T());
+    matdata.resize(matdata.size()+nghost_new);
+  }
+
   // Remove a material and its entries from the vector
   void rem_material(int m) {
     mydata_->erase(mydata_->begin()+m);
-- 
2.43.0


From 874b962bdf869c1f5b8d62320930722ac56aeb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 38/54] fix: multi-material vectors on mesh tiles follow the
 materials too

---
 src/statemanager/JaliState.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 0b280a5..74f069c 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -91,7 +91,9 @@ void State::add_material(std::string const& matname,
   for (auto &sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
+      auto tv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
       if (mv) mv->add_material(matset->num_entities());
+      if (tv) tv->add_material(matset->num_entities());
     }
   }
 }
@@ -117,7 +119,9 @@ void State::rem_material(int m) {
   for (auto &sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
+      auto tv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
       if (mv) mv->rem_material(m);
+      if (tv) tv->rem_material(m);
     }
   }
 }
@@ -147,7 +151,11 @@ void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   for (auto & sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      mv->add_cells(m, nowned_old, nowned - nowned_old, nghost - nghost_old);
+      auto tv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
+      if (mv)
+        mv->add_cells(m, nowned_old, nowned - nowned_old, nghost - nghost_old);
+      if (tv)
+        tv->add_cells(m, nowned_old, nowned - nowned_old, nghost - nghost_old);
     }
   }
 }
-- 
2.43.0


From 7d3a1a54244cc708cc15582df7f40396cd2b9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 39/54] fix: a vector copied from another mesh is looked for on
 this mesh before it is added

---
 src/statemanager/JaliState.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index ac21aeb..d48036f 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1351,7 +1351,7 @@ class State : public std::enable_shared_from_this<State> {
     Entity_type type = in_vec.entity_type();
 
     iterator it = find<T, DomainType, StateVecType>(in_vec.name(),
-                                                    in_vec.domain(), kind,
+                                                    mymesh_, kind,
                                                     type);
     if (it == end()) {
 
-- 
2.43.0


From 47b46f84b14a1f988a0f50f1bd4f25944cdce997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 40/54] fix: export_to_mesh passes over vectors that the mesh
 cannot store

---
 src/statemanager/JaliState.cc | 34 ++++++++++++++++++++--------------
 src/statemanager/JaliState.h  |  4 ++++
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 74f069c..bd08ef0 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -239,6 +239,21 @@ void State::init_from_mesh() {
 }  // init_from_mesh
 
 
+//! Store the data of a vector with the mesh, which takes one value for each
+//! of its entities; vectors on other meshes or on mesh tiles and those with
+//! data for some entities only cannot be stored
+
+template <class T>
+bool State::export_vector(std::shared_ptr<StateVectorBase> const& vec) {
+  auto svec = std::dynamic_pointer_cast<UniStateVector<T>>(vec);
+  if (!svec || svec->domain() != mymesh_) return false;
+  Entity_kind kind = svec->entity_kind();
+  if (svec->size() != mymesh_->num_entities(kind, Entity_type::ALL))
+    return false;
+  return mymesh_->store_field(svec->name(), kind, svec->get_raw_data());
+}
+
+
 //! \brief Export field data to mesh
 //! Export data from state vectors to mesh fields - Since the statevector is
 //! templated, we have to go through case by case to see if the type matches
@@ -251,29 +266,20 @@ void State::export_to_mesh() {
   while (it != cend()) {
     const std::shared_ptr<StateVectorBase> vec = *it;
     std::string name = vec->name();
-    Entity_kind entity_kind = vec->entity_kind();
     bool status = false;
 
     // We only know how to store univalued data with the mesh
     if (vec->type() == StateVector_type::UNIVAL) {
       if (vec->data_type() == typeid(double)) {
-        auto svec = std::dynamic_pointer_cast<UniStateVector<double>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        status = export_vector<double>(vec);
       } else if (vec->data_type() == typeid(int)) {
-        auto svec = std::dynamic_pointer_cast<UniStateVector<int>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        status = export_vector<int>(vec);
       } else if (vec->data_type() == typeid(std::array<double, 2>)) {
-        auto svec =
-            std::dynamic_pointer_cast<UniStateVector<std::array<double, 2>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        status = export_vector<std::array<double, 2>>(vec);
       } else if (vec->data_type() == typeid(std::array<double, 3>)) {
-        auto svec =
-            std::dynamic_pointer_cast<UniStateVector<std::array<double, 3>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        status = export_vector<std::array<double, 3>>(vec);
       } else if (vec->data_type() == typeid(std::array<double, 6>)) {
-        auto svec =
-            std::dynamic_pointer_cast<UniStateVector<std::array<double, 6>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        status = export_vector<std::array<double, 6>>(vec);
       }
     }
 
diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index d48036f..17f5929 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1433,6 +1433,10 @@ class State : public std::enable_shared_from_this<State> {
 
  private:
 
+  // Store the data of a vector with the mesh if it can take it
+  template <class T>
+  bool export_vector(std::shared_ptr<StateVectorBase> const& vec);
+
   // Constant pointer to the mesh associated with this state
   const std::shared_ptr<Mesh> mymesh_;
 
-- 
2.43.0


From d6df681ced7791e4b1f9d50d46c7828d804d91e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 41/54] fix: the raw data of an empty vector is not taken from
 its first element

---
 src/statemanager/JaliState.h       | 2 +-
 src/statemanager/JaliStateVector.h | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index 17f5929..bee57e0 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1378,7 +1378,7 @@ class State : public std::enable_shared_from_this<State> {
                                                           mymesh_,
                                                           shared_from_this(),
                                                           kind, type,
-                                                          &(in_vec[0]));
+                                                          in_vec.get_raw_data());
       } else {
         vector_copy = std::make_shared<StateVecType<T, DomainType>>(in_vec);
       }
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 44d37b2..c924484 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -384,11 +384,11 @@ class UniStateVector : public UniStateVectorBase<DomainType> {
 
   /// Get the raw data
 
-  T *get_raw_data() { return &((*mydata_)[0]); }
+  T *get_raw_data() { return mydata_->data(); }
 
   /// Get the raw data
 
-  T const *get_raw_data() const { return &((*mydata_)[0]); }
+  T const *get_raw_data() const { return mydata_->data(); }
 
   /// Get a shared pointer to the data
 
@@ -829,11 +829,11 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
 
   /// Get the raw data for a material
 
-  T *get_raw_data(int m) { return &((*mydata_)[m][0]); }
+  T *get_raw_data(int m) { return (*mydata_)[m].data(); }
 
   /// Get the raw data for a material
 
-  T const *get_raw_data(int m) const { return &((*mydata_)[m][0]); }
+  T const *get_raw_data(int m) const { return (*mydata_)[m].data(); }
 
   /// Get a shared ptr to the data
 
-- 
2.43.0


From 6e698064368a7b0f14f7073571978c58c35d309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 42/54] fix: the exception behavior is the same in all parts of
 the program

---
 src/error_handling/exceptions.cc |  4 ++++
 src/error_handling/exceptions.hh | 10 +++-------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/error_handling/exceptions.cc b/src/error_handling/exceptions.cc
index 45c6fba..804af8c 100644
--- a/src/error_handling/exceptions.cc
+++ b/src/error_handling/exceptions.cc
@@ -50,6 +50,10 @@
 
 #include <sstream>
 
+namespace {
+Exceptions::Exception_action behavior = Exceptions::RAISE;
+}
+
 namespace Exceptions {
 
 void set_exception_behavior_raise() { behavior = Exceptions::RAISE; }
diff --git a/src/error_handling/exceptions.hh b/src/error_handling/exceptions.hh
index ceaae86..50034da 100644
--- a/src/error_handling/exceptions.hh
+++ b/src/error_handling/exceptions.hh
@@ -74,18 +74,14 @@ template <typename E> void Jali_throw(const E& exception);
 }  // namespace Exceptions
 
 
-namespace {
-Exceptions::Exception_action behavior = Exceptions::RAISE;
-}
-
-
 namespace Exceptions {
 
-// Either raise the given exception or abort, depending on the value of behavior.
+// Either raise the given exception or abort, depending on the current
+// exception behavior, which is one for the whole program.
 template <typename E>
 void Jali_throw(const E& exception)
 {
-  if (behavior == Exceptions::RAISE)
+  if (exception_behavior() == Exceptions::RAISE)
       throw exception;
   else
       abort ();
-- 
2.43.0


From 552d95d472d0d35b46663f7ee68d1999fa12ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 43/54] fix: resetting the options of the mesh factory resets
 the request for sides

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index e11fb87..11bd2da 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -151,6 +151,7 @@ void MeshFactory::reset_options(void) {
   request_edges_ = request_edges_default_;
   request_faces_ = request_faces_default_;
   request_cells_ = request_cells_default_;
+  request_sides_ = request_sides_default_;
   request_wedges_ = request_wedges_default_;
   request_corners_ = request_corners_default_;
 
-- 
2.43.0


From 193ff982ddd7895b4bd29372939559ebf02ddcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 44/54] fix: a 2D mesh that the chosen framework cannot
 generate is an error

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 11bd2da..472f062 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -429,6 +429,7 @@ MeshFactory::create(double const x0, double const y0,
       }
 #endif
       default: {
+        ierr = 1;
         errmsg.add_data("Chosen framework cannnot generate meshes");        
       }
     }
-- 
2.43.0


From 3f5c88d248e903a3ba34eb6d5ceadc376ce6ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 45/54] fix: a 1D mesh of nx cells has that many and reaches
 the end of its extent

---
 src/mesh/mesh_factory/MeshFactory.hh | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.hh b/src/mesh/mesh_factory/MeshFactory.hh
index 03df426..a7c77ef 100644
--- a/src/mesh/mesh_factory/MeshFactory.hh
+++ b/src/mesh/mesh_factory/MeshFactory.hh
@@ -335,14 +335,20 @@ class MeshFactory {
   /// Create a 1d mesh -- operator
   std::shared_ptr<Mesh> operator() (double const x0, double const x1,
                                     int const nx) {
+    if (nx <= 0) {
+      std::stringstream mesgstrm;
+      mesgstrm << "invalid number of mesh cells requested: " << nx << "\n";
+      Errors::Message errmsg(mesgstrm.str());
+      Exceptions::Jali_throw(errmsg);
+    }
+
     double dX = (x1-x0)/((double)nx);
-    double myX = x0;
 
-    std::vector<double> x(nx);
-    for (auto it = x.begin(); it != x.end(); it++) {
-      *it = myX;
-      myX += dX;
-    }
+    // nx cells have nx+1 nodes
+    std::vector<double> x(nx+1);
+    for (int i = 0; i < nx; i++)
+      x[i] = x0 + i*dX;
+    x[nx] = x1;
 
     return create(x);
   }
-- 
2.43.0


From 970563d193e6f6911543ed7870197a8e8a07d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 46/54] fix: MSTK is available only where Jali is built with it

---
 src/mesh/mesh_factory/MeshFactory.cc | 13 +++++++++----
 src/mesh/mesh_factory/MeshFactory.hh |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 472f062..48fa86e 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -90,10 +90,15 @@ std::string framework_name(MeshFramework_t const& f) {
 
 /// Check if a framework is available for use
 bool framework_available(MeshFramework_t const& f) {
-  if (f == Simple || f == MSTK)
-    return true;
-  else
-    return false;
+  switch (f) {
+    case Simple:
+#ifdef HAVE_MSTK_MESH
+    case MSTK:
+#endif
+      return true;
+    default:
+      return false;
+  }
 }
 
 /// Check if a framework can generate a mesh
diff --git a/src/mesh/mesh_factory/MeshFactory.hh b/src/mesh/mesh_factory/MeshFactory.hh
index a7c77ef..b1379f1 100644
--- a/src/mesh/mesh_factory/MeshFactory.hh
+++ b/src/mesh/mesh_factory/MeshFactory.hh
@@ -131,7 +131,7 @@ class MeshFactory {
 
   /// Set the framework to use
   void framework(MeshFramework_t const& framework) {
-    if (framework == Simple || framework == MSTK) {
+    if (framework_available(framework)) {
       framework_ = framework;
     } else {
       std::stringstream mesgstrm;
-- 
2.43.0


From 4cefc2321188331365314d74eda2eac1c426d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 47/54] fix: Mesh_simple refuses to make boundary ghosts in
 release builds too

---
 src/mesh/mesh_simple/Mesh_simple.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 3c05581..9b67048 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -82,7 +82,9 @@ Mesh_simple::Mesh_simple(double x0, double y0, double z0,
        num_ghost_layers_distmesh, boundary_ghosts_requested,
        partitioner, JaliGeometry::Geom_type::CARTESIAN, mycomm) {
 
-  assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
+  if (boundary_ghosts_requested)
+    Exceptions::Jali_throw(Errors::Message("Simple mesh cannot yet make"
+                                           " boundary ghosts"));
 
   Mesh::set_mesh_type(Mesh_type::RECTANGULAR);
   if (gm != (JaliGeometry::GeometricModelPtr) NULL)
@@ -151,7 +153,9 @@ Mesh_simple::Mesh_simple(const std::vector<double>& x,
   if (gm != (JaliGeometry::GeometricModelPtr) NULL)
     Mesh::set_geometric_model(gm);
 
-  assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
+  if (boundary_ghosts_requested)
+    Exceptions::Jali_throw(Errors::Message("Simple mesh cannot yet make"
+                                           " boundary ghosts"));
 
   clear_internals_1d_();
   update_internals_1d_();
-- 
2.43.0


From 2fba44f3613f2c5991fc89824e0d1130bedc0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 48/54] fix: models and domains report errors like the rest of
 the library

GeometricModel and Domain threw a bare std::exception, without the text they
printed and whatever the exception behavior.
---
 src/geometry/Domain.cc         | 17 +++++++++--------
 src/geometry/GeometricModel.cc |  4 ++--
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/geometry/Domain.cc b/src/geometry/Domain.cc
index e3ded32..16af4e1 100644
--- a/src/geometry/Domain.cc
+++ b/src/geometry/Domain.cc
@@ -57,6 +57,7 @@
  */
 
 #include "Domain.hh"
+#include "errors.hh"
 
 namespace JaliGeometry {
 
@@ -73,8 +74,8 @@ namespace JaliGeometry {
 Domain::Domain(const unsigned int dim): spatial_dimension_(dim)
 {
   if (dim < 2u || dim > 3u) {
-    std::cerr << "Only 2D and 3D domains are supported" << std::endl;
-    throw std::exception();
+    Errors::Message mesg("Only 2D and 3D domains are supported");
+    Exceptions::Jali_throw(mesg);
   }
 
   GeometricModels.clear();
@@ -121,8 +122,8 @@ Domain::Domain(const unsigned int dim,
   FreeRegions(in_Regions)
 {
   if (dim != 2 && dim != 3) {
-    std::cerr << "Only 2D and 3D domains are supported" << std::endl;
-    throw std::exception();
+    Errors::Message mesg("Only 2D and 3D domains are supported");
+    Exceptions::Jali_throw(mesg);
   }
 }
 
@@ -135,8 +136,8 @@ void Domain::Add_Geometric_Model(const GeometricModelPtr& gm)
   // Make sure spatial dimension of domain and geometric model are the same
 
   if (spatial_dimension_ != gm->dimension()) {
-    std::cerr << "Spatial dimension of domain and geometric model mismatch" << std::endl;
-    throw std::exception();
+    Errors::Message mesg("Spatial dimension of domain and geometric model mismatch");
+    Exceptions::Jali_throw(mesg);
   }
 
   GeometricModels.push_back(gm);
@@ -148,8 +149,8 @@ void Domain::Add_Geometric_Model(const GeometricModelPtr& gm)
 void Domain::Add_Free_Region(const RegionPtr& regptr)
 {
   if (spatial_dimension_ < regptr->dimension()) {
-    std::cerr << "Spatial dimension of domain is less than that of the free region" << std::endl;
-    throw std::exception();
+    Errors::Message mesg("Spatial dimension of domain is less than that of the free region");
+    Exceptions::Jali_throw(mesg);
   }
 
   FreeRegions.push_back(regptr);
diff --git a/src/geometry/GeometricModel.cc b/src/geometry/GeometricModel.cc
index 86ff6b4..20eceeb 100644
--- a/src/geometry/GeometricModel.cc
+++ b/src/geometry/GeometricModel.cc
@@ -75,8 +75,8 @@ namespace JaliGeometry {
     topo_dimension_(dim)
 {
   if (dim != 2 && dim != 3) {
-    std::cerr << "Only 2D and 3D domains are supported" << std::endl;
-    throw std::exception();
+    Errors::Message mesg("Only 2D and 3D domains are supported");
+    Exceptions::Jali_throw(mesg);
   }
   Regions.clear();
 }
-- 
2.43.0


From 9248c027a23cdcd9e7bc5afd1b36e5863564dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 49/54] fix: a logical region that names an unknown region is
 reported as an error

init_sets_from_geometric_model only asserted that it exists and followed a null
pointer in builds without assertions; build_set_from_region reports it.
---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 4fc02e8..59fc594 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2418,7 +2418,7 @@ void Mesh::init_sets_from_geometric_model(
 
         for (std::string & regname : region_names) {
           JaliGeometry::RegionPtr rgn1 = geometric_model_->FindRegion(regname);
-          assert(rgn1);
+          if (!rgn1) continue;  // reported when the set is built
           if (rgn1->type() == JaliGeometry::Region_type::LABELEDSET) {
             entity_kinds.clear();
             
-- 
2.43.0


From 07f3e302c0f21538a3f68bdf40bd79eff375f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 50/54] fix: cache the edge directions of the cells of a
 surface mesh

cell_2D_get_edges_and_dirs read past the empty cache when the cells are
two-dimensional but the space is three-dimensional.
---
 src/mesh/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 59fc594..cfc6ca2 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -186,12 +186,12 @@ void Mesh::cache_cell2edge_info() const {
   if (space_dim_ == 1) {
     for (auto const& c : cells())
       cell_get_nodes(c, &(cell_edge_ids[c]));   // edges are same as nodes
-  } else if (space_dim_ == 2) {
+  } else if (manifold_dim_ == 2) {
     cell_2D_edge_dirs.resize(ncells);
     for (auto const& c : cells())
       cell_2D_get_edges_and_dirs_internal(c, &(cell_edge_ids[c]),
                                           &(cell_2D_edge_dirs[c]));
-  } else if (space_dim_ == 3) {
+  } else if (manifold_dim_ == 3) {
     for (auto const& c : cells())
       cell_get_edges_internal(c, &(cell_edge_ids[c]));
   }
-- 
2.43.0


From c56a156591c4199f8d1ef2ecccf977c71a7f7b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 51/54] fix: face normals of a surface mesh point away from the
 cell's centre

The centre was summed into a point without a dimension, which left it
empty, so that normals pointed away from the origin instead.
---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index cfc6ca2..3d553e9 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1331,7 +1331,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
 
         assert(found);
 
-        JaliGeometry::Point cellcen;
+        JaliGeometry::Point cellcen(space_dim_);
         std::vector<JaliGeometry::Point> ccoords;
         cell_get_coordinates(cellids[i], &ccoords);
 
-- 
2.43.0


From ac7c9b0e747992607737abaa7acddb75c1b6ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 52/54] fix: corner coordinates in 2D are ordered by the
 corner's first wedge

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3d553e9..a211f3f 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2231,7 +2231,7 @@ Mesh::corner_get_coordinates(const Entity_ID cornerid,
     // Make sure we got the coordinates in the right orientation
 
     JaliGeometry::Point vec0 = (*pointcoords)[1] - (*pointcoords)[0];
-    JaliGeometry::Point vec1 = (*pointcoords)[3] - (*pointcoords)[0];
+    JaliGeometry::Point vec1 = (*pointcoords)[2] - (*pointcoords)[0];
     JaliGeometry::Point cpvec = vec0^vec1;  // 2 times the vol of cwedges[0]
 
     // If the sign of cpvec[0] and wedge_volume(cwedges[0]) not the same, then
-- 
2.43.0


From cec8ed908bcff25c5732d6145a219127c63ef1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:43 +0000
Subject: [PATCH 53/54] fix: Entity_type_string names each type by its own name

---
 src/mesh/MeshDefs.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/MeshDefs.hh b/src/mesh/MeshDefs.hh
index 0219930..6bba140 100644
--- a/src/mesh/MeshDefs.hh
+++ b/src/mesh/MeshDefs.hh
@@ -185,8 +185,8 @@ std::string Entity_type_string(Entity_type const type) {
        "Entity_type::PARALLEL_OWNED", "Entity_type::PARALLEL_GHOST",
        "Entity_type::BOUNDARY_GHOST", "Entity_type::ALL"};
 
-  int itype = static_cast<int>(type);
-  return valid_entity_type(type) ? type_str[itype] : "";
+  int itype = static_cast<int>(type) + 1;  // TYPE_UNKNOWN is -1
+  return (itype >= 0 && itype < NUM_ENTITY_TYPES) ? type_str[itype] : "";
 }
 
 
-- 
2.43.0


From 8811cc21d49bb0e3853c1767ceb745a061f9b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:35 +0000
Subject: [PATCH 54/54] fix: a material named after a set made without a
 reverse map finds its cells

---
 src/mesh/MeshSet.cc           | 14 ++++++++++++++
 src/mesh/MeshSet.hh           |  5 +++++
 src/statemanager/JaliState.cc |  3 +++
 3 files changed, 22 insertions(+)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 57a26ca..86ccbcf 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -101,6 +101,20 @@ MeshSet::MeshSet(std::string const& name,
 }  // MeshSet::MeshSet
 
 
+// Build the map from mesh entities to their index in the meshset if
+// the meshset was made without it
+
+void MeshSet::build_reverse_map() {
+  if (have_reverse_map_) return;
+
+  have_reverse_map_ = true;
+  mesh2subset_.resize(mesh_.num_entities(kind_, Entity_type::ALL), -1);
+  int nall = entityids_all_.size();
+  for (int i = 0; i < nall; ++i)
+    mesh2subset_[entityids_all_[i]] = i;
+}
+
+
 // Add entity to meshset (no check for duplicates)
 
 void MeshSet::add_entity(Entity_ID const& mesh_entity) {
diff --git a/src/mesh/MeshSet.hh b/src/mesh/MeshSet.hh
index f64991f..99eb46f 100644
--- a/src/mesh/MeshSet.hh
+++ b/src/mesh/MeshSet.hh
@@ -226,6 +226,11 @@ class MeshSet {
     return (mesh2subset_.size() ? mesh2subset_[mesh_entity] : -1);
   }
   
+  /// @brief build the map from mesh entities to their index in the
+  /// meshset if the meshset was made without it
+
+  void build_reverse_map();
+
   /// @brief add entity to meshset (no check for duplicates)
 
   void add_entity(Entity_ID const& mesh_entity);
diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index bd08ef0..2dbd143 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -74,6 +74,9 @@ void State::add_material(std::string const& matname,
     bool with_reverse_map = true;
     matset = make_meshset(matname, *mymesh_, Jali::Entity_kind::CELL,
                           owned_entities, ghost_entities, with_reverse_map);
+  } else {
+    // Cells are looked up by their index in the set
+    matset->build_reverse_map();
   }
 
   matset->add_entities(matcells);
-- 
2.43.0

