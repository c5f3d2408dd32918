From 6a2bc09a4e6b3b5d01d9fcbe83ce02012ceaf345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:26 +0000
Subject: [PATCH 01/51] fix: keep edge colors with their segment when a
 boundary shape is given in reversed orientation

---
 src/algorithm/Boundary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/Boundary.h b/src/algorithm/Boundary.h
index fb168cb..1c1035a 100644
--- a/src/algorithm/Boundary.h
+++ b/src/algorithm/Boundary.h
@@ -363,7 +363,7 @@ private:
       for (int i = N-1; i >= 0; --i)
       {
         int j = MOD(i+1, N);
-        add_edge( *new_verts[j], *new_verts[i], e_colors[j] );
+        add_edge( *new_verts[j], *new_verts[i], e_colors[i] );
       }
     }
   };
-- 
2.43.0


From 79edc8e49623bf83b4c1f1b37adcf53f4738f2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:26 +0000
Subject: [PATCH 02/51] fix: decide the side of a facet topologically in
 setup_facet_connectivity()

The centroid of a concave quad may lie on the wrong side of its edges, which
left edges with a wrong or stale facet reference.
---
 src/algorithm/MeshCleanup.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index a98a48e..d96880d 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -127,11 +127,16 @@ public:
         }
       }
 
+      // Facets are oriented counter-clockwise. Hence, a facet is located
+      // to the left of the edge, if it traverses the edge from v1 to v2
+      e_ptr->facet_l( &NullFacet::get_instance() );
+      e_ptr->facet_r( &NullFacet::get_instance() );
+
       if ( NullFacet::is_not_null(f1) )
       {
         f1->neighbor( idx1, f2 );
 
-        if ( is_left( v1.xy(), v2.xy(), f1->xy() ) )
+        if ( is_directed_facet_edge( *f1, v1, v2 ) )
           e_ptr->facet_l( f1 );
         else
           e_ptr->facet_r( f1 );
@@ -141,7 +146,7 @@ public:
       {
         f2->neighbor( idx2, f1 );
 
-        if ( is_left( v1.xy(), v2.xy(), f2->xy() ) )
+        if ( is_directed_facet_edge( *f2, v1, v2 ) )
           e_ptr->facet_l( f2 );
         else
           e_ptr->facet_r( f2 );
@@ -171,7 +176,7 @@ public:
         continue;
 
       // Setup connectivity between boundary edge and facet
-      if ( is_left( v1.xy(), v2.xy(), f1->xy() ) )
+      if ( is_directed_facet_edge( *f1, v1, v2 ) )
         e_ptr->facet_l( f1 );
       else
         ASSERT(false, "Invalid mesh boundary edge");
@@ -808,6 +813,18 @@ public:
   } // merge_triangles_to_quads()
 
 private:
+  /*------------------------------------------------------------------
+  | Check if a facet traverses one of its edges in the direction from 
+  | vertex v1 to vertex v2
+  ------------------------------------------------------------------*/
+  static inline bool is_directed_facet_edge(const Facet& f, 
+                                            const Vertex& v1,
+                                            const Vertex& v2)
+  {
+    const int i = f.get_vertex_index( v1 );
+    return &f.vertex( MOD(i+1, static_cast<int>(f.n_vertices())) ) == &v2;
+  }
+
   /*------------------------------------------------------------------
   | We hide the constructor, since this class acts only as container
   | for static inline functions
-- 
2.43.0


From 5ffe0a1bc6f517014924235f547e2b465b7a1ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:26 +0000
Subject: [PATCH 03/51] fix: tri2quad modification merges triangles only to
 convex quads

Concave quads were turned into inverted elements by a subsequent refinement.
---
 src/algorithm/ModificationStrategy.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algorithm/ModificationStrategy.h b/src/algorithm/ModificationStrategy.h
index bf1208c..501a7f6 100644
--- a/src/algorithm/ModificationStrategy.h
+++ b/src/algorithm/ModificationStrategy.h
@@ -165,6 +165,11 @@ private:
       Vertex& q_l = f_l->vertex(i_l);
       Vertex& q_r = f_r->vertex(i_r);
 
+      // The merged quadrilateral must be convex 
+      if (  orientation(q_l.xy(), v1.xy(), q_r.xy()) != Orientation::CCW
+         || orientation(q_r.xy(), v2.xy(), q_l.xy()) != Orientation::CCW )
+        continue;
+
       // Remove internal edge
       mesh_->remove_interior_edge( *e );
 
-- 
2.43.0


From 4f81ea211b914180960d0b624ad83cae70a45a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:26 +0000
Subject: [PATCH 04/51] fix: check all four quad corners when a smoothed vertex
 position is validated

---
 src/algorithm/SmoothingStrategy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/SmoothingStrategy.h b/src/algorithm/SmoothingStrategy.h
index ec3570a..0a8fc6e 100644
--- a/src/algorithm/SmoothingStrategy.h
+++ b/src/algorithm/SmoothingStrategy.h
@@ -244,6 +244,10 @@ protected:
           return false;
         if ( orientation(v2, v3, v4) != Orientation::CCW )
           return false;
+        if ( orientation(v3, v4, v1) != Orientation::CCW )
+          return false;
+        if ( orientation(v4, v1, v2) != Orientation::CCW )
+          return false;
       }
     }
 
-- 
2.43.0


From 34a2164a03e99e2aef2c8d0d44d84b21b6831136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:25 +0000
Subject: [PATCH 05/51] fix: triangulation of an already complete mesh returns
 instead of dereferencing a null base edge

---
 src/algorithm/Triangulation.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm/Triangulation.h b/src/algorithm/Triangulation.h
index 2c0db33..5850ec4 100644
--- a/src/algorithm/Triangulation.h
+++ b/src/algorithm/Triangulation.h
@@ -85,6 +85,10 @@ public:
     // Initialize the advancing front and its base edge
     Edge* base_edge = init_advancing_front();
 
+    // Nothing to do, if the mesh is already complete
+    if ( !base_edge )
+      return true;
+
     // Remove invalid mesh edges that are no longer needed
     remove_invalid_mesh_edges();
 
@@ -136,6 +140,10 @@ public:
     // Initialize the advancing front and its base edge
     Edge* base_edge = init_advancing_front();
 
+    // Nothing to do, if the mesh is already complete
+    if ( !base_edge )
+      return true;
+
     // Remove invalid mesh edges that are no longer needed
     remove_invalid_mesh_edges();
 
-- 
2.43.0


From 54bb577b82cab32f3b0f8cfba97dbe9e5ac841b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:25 +0000
Subject: [PATCH 06/51] fix: quad layers handle consumed fronts, boundary
 corners and single-edge ranges

- the gap between two layers is only closed if its front edges still exist
- no layer is placed on an empty front
- split_edge() may fail; its result is checked before it is used
- corners of the boundary and fixed vertices are never shifted by a layer
- a layer whose starting and ending edge coincide covers this edge only
---
 src/algorithm/QuadLayering.h | 59 ++++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 743eaf5..020a35e 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -65,15 +65,14 @@ public:
     // Initialize edges
     Edge* e_cur = e_start_;
 
-    do 
+    while ( e_cur != e_end_ )
     {
       ASSERT( e_cur, "QuadLayerVertices::QuadLayerVertices(): "
         "Advancing front data structure seems to be corrupted.");
 
       add_quadlayer_edge( *e_cur );
       e_cur = e_cur->get_next_edge();
-
-    } while ( e_cur != e_end_ );
+    }
 
     // Add also the ending edge
     add_quadlayer_edge( *e_end_ );
@@ -290,6 +289,14 @@ private:
       Vec2d delta_2 = v1_proj_xy_[0] - v1_base_[0]->xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_prev_new = v1_base_[0]->xy() + delta_1 * s;
+
+      // Corners of the boundary must not be shifted 
+      if ( !can_be_shifted(v_prev, v_start, e_prev, e_prev->get_prev_edge()) )
+      {
+        v1_proj_xy_[0] = v_prev.xy();
+        return;
+      }
+
       MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
       v1_proj_xy_[0] = v_prev_new;
       return;
@@ -314,6 +321,9 @@ private:
       auto new_edges 
         = front.split_edge(*e_prev, mesh_vertices, sf);
 
+      if ( !new_edges.first )
+        return;
+
       // Remove the splitted edge in the mesh data structure
       if ( e_bdry_rem )
       {
@@ -415,6 +425,14 @@ private:
       Vec2d delta_2 = v2_proj_xy_.back() - v_end.xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_next_new = v_end.xy() + delta_1 * s;
+
+      // Corners of the boundary must not be shifted 
+      if ( !can_be_shifted(v_next, v_end, e_next, e_next->get_next_edge()) )
+      {
+        v2_proj_xy_.back() = v_next.xy();
+        return;
+      }
+
       MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
       v2_proj_xy_.back() = v_next_new;
       return;
@@ -437,6 +455,9 @@ private:
 
       auto new_edges = front.split_edge(*e_next, verts, sf);
 
+      if ( !new_edges.first )
+        return;
+
       // Remove the splitted edge in the mesh data structure
       if ( e_bdry_rem ) 
       {
@@ -475,6 +496,30 @@ private:
 
   } // QuadLayerVertices::place_end_vertex()
 
+  /*------------------------------------------------------------------
+  | Check if a vertex <v>, which is connected to a vertex <w> through 
+  | the edge <e>, can be shifted along this edge.
+  | Vertices on the boundary can only be shifted if they are located in 
+  | between two aligned boundary edges <e> and <e_adj>.
+  ------------------------------------------------------------------*/
+  bool can_be_shifted(const Vertex& v, const Vertex& w, 
+                      const Edge* e, const Edge* e_adj) const
+  {
+    if ( v.is_fixed() )
+      return false;
+
+    if ( !v.on_boundary() )
+      return true;
+
+    if ( !e_adj || !e->on_boundary() || !e_adj->on_boundary() )
+      return false;
+
+    const Vertex& u = ( e_adj->v1() == v ) ? e_adj->v2() : e_adj->v1();
+
+    return orientation(u.xy(), v.xy(), w.xy()) == Orientation::CL;
+
+  } // QuadLayerVertices::can_be_shifted()
+
   /*------------------------------------------------------------------
   | Add a new edge to the quad layer structure
   ------------------------------------------------------------------*/
@@ -868,6 +913,10 @@ private:
   ------------------------------------------------------------------*/
   void close_quad_layer_gap(Vertex& v_a, Vertex& v_b, Vertex& v_c)
   {
+    // The gap has already been closed 
+    if ( !front_.get_edge(v_a, v_b) || !front_.get_edge(v_b, v_c) )
+      return;
+
     const Vec2d l1 = v_a.xy()-v_b.xy();
     const Vec2d l2 = v_c.xy()-v_b.xy();
     const double alpha = angle(l1,l2);
@@ -922,6 +971,10 @@ private:
   bool find_start_and_ending_edges(const Vec2d& xy_start,
                                    const Vec2d& xy_end)
   {
+    // No front is left to place a quad layer
+    if ( front_.size() < 1 )
+      return false;
+
     // Find closest vertices in current front structure to  
     // current start and ending vertex coordinates
     Vertex& v_start = front_.get_closest_vertex( xy_start );
-- 
2.43.0


From 620de91300bd76ad2a5d02210601736b7a634cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:12 +0000
Subject: [PATCH 07/51] fix: nearest-item search finds the closest item for any
 query point

The search was limited to the vicinity of the leaf that encloses the
query point: it found nothing if this region is empty and dereferenced
a null pointer for queries outside of the tree. User-defined query
functions are now also forwarded to the children of a splitted tree.
---
 src/utils/QuadTree.h | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index 31cbb9f..c42377e 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -188,20 +188,32 @@ public:
   {
     auto quad = get_leaf(query);
 
-    V min_dist_sqr = 4 * quad->scale() * quad->scale();
-    T* winner      = nullptr;
+    // Use entire tree for query points that are located outside of it
+    if ( !quad )
+      quad = this;
 
-    for ( auto item : quad->items() )
-      if ( qfun(item, query, min_dist_sqr ) )
-        winner = item;
+    const V dist_to_tree = (query - center_).norm() + scale_;
+    V radius             = 2 * quad->scale();
+    T* winner            = nullptr;
 
-    Vector found {};
-    
-    get_items(query, 4 * sqrt(min_dist_sqr), found);
+    // Extend the search radius until the closest item is found or until 
+    // the whole tree has been searched
+    while ( !winner && n_items_ > 0 )
+    {
+      V min_dist_sqr = radius * radius;
+      Vector found {};
+
+      get_items(query, radius, found);
 
-    for ( auto item : found )
-      if ( qfun(item, query, min_dist_sqr ) )
-        winner = item;
+      for ( auto item : found )
+        if ( qfun(item, query, min_dist_sqr ) )
+          winner = item;
+
+      if ( !(radius <= dist_to_tree) )
+        break;
+
+      radius *= 2;
+    }
 
     return winner;
   }
@@ -248,7 +260,7 @@ public:
       for ( auto child : children_ )
       {
         ASSERT( child, "QuadTree structure is corrupted." );
-        n_found += child->get_items(lowleft,upright,found);
+        n_found += child->get_items(lowleft,upright,found,qfun);
       }
     }
     else
@@ -289,7 +301,7 @@ public:
       for ( auto child : children_ )
       {
         ASSERT( child, "QuadTree structure is corrupted." );
-        n_found += child->get_items(center, radius, found);
+        n_found += child->get_items(center, radius, found, qfun);
       }
     }
     else
-- 
2.43.0


From 560dda8814036d32cf303b038044bbee16549ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:33 +0000
Subject: [PATCH 08/51] fix: container keeps its quad tree consistent when
 items are moved or lie outside of it

- an item that was moved to the border of its quad remained in this quad,
  although the neighboring quad is searched for it afterwards: it could
  then not be found or removed any more (dangling pointers)
- items outside of the quad tree could not be removed, and updating their
  position dereferenced a null pointer
---
 src/utils/Container.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utils/Container.h b/src/utils/Container.h
index 1fc3946..52a1785 100644
--- a/src/utils/Container.h
+++ b/src/utils/Container.h
@@ -173,7 +173,10 @@ public:
   ------------------------------------------------------------------*/
   bool remove(T& item) 
   { 
-    if ( qtree_.remove( &item ) )
+    // Items that are located outside of the quad tree only exist in the list
+    const bool outside = ( qtree_.get_leaf( item.xy() ) == nullptr );
+
+    if ( qtree_.remove( &item ) || (outside && item.in_container_) )
     {
       // Move item to waste list
       waste_.splice(waste_.end(), items_, item.pos_);
@@ -194,13 +197,14 @@ public:
   {
     auto quad = qtree_.get_leaf( item.xy() );
 
-    if ( in_on_rect(xy_new, quad->lowleft(), quad->upright()) )
+    // The item remains in its quad 
+    if ( quad && quad == qtree_.get_leaf( xy_new ) )
     {
       item.xy_ = xy_new;
       return true;
     }
 
-    if ( !qtree_.remove( &item ) )
+    if ( quad && !qtree_.remove( &item ) )
       return false;
 
     item.xy_ = xy_new;
-- 
2.43.0


From a9e41ad4d6c2e1f815a1adc9a3cfb8548d1b479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:07 +0000
Subject: [PATCH 09/51] fix: assign the boundary directions of quad layer
 vertices to the vertices they belong to

The directions were appended behind the zero-initialized entries, so that
quad layer heights were not preserved during the smoothing.
---
 src/algorithm/SmoothingStrategy.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/SmoothingStrategy.h b/src/algorithm/SmoothingStrategy.h
index 0a8fc6e..18bcb21 100644
--- a/src/algorithm/SmoothingStrategy.h
+++ b/src/algorithm/SmoothingStrategy.h
@@ -78,8 +78,12 @@ protected:
     if ( !quad_layer_smoothing_ )
       return;
 
+    std::size_t i_v = 0;
+
     for ( auto& v_ptr : vertices )
     {
+      Vec2d& bdry_dir = bdry_direction_[i_v++];
+
       // Skip all vertices except those located in quad layers
       if ( !v_ptr->has_property(VertexProperty::in_quad_layer) )
         continue;
@@ -103,7 +107,7 @@ protected:
       const Vec2d p_xy = e1_xy + t * delta_e;
       const Vec2d delta_p = p_xy - v_xy;
 
-      bdry_direction_.push_back( delta_p / delta_p.norm() );
+      bdry_dir = delta_p / delta_p.norm();
     }
 
   } // collect_dispalcement_directions()
-- 
2.43.0


From 6c86e339e5e7af8a68b354208860afe8f76f1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:55 +0000
Subject: [PATCH 10/51] fix: quad layer merges its triangles only to convex
 quads

Concave quads were turned into inverted elements by a subsequent refinement.
---
 src/algorithm/QuadLayering.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 020a35e..79c3209 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -832,6 +832,13 @@ private:
     v_proj.second = &v_proj_p2;
 
 
+    // Keep both triangles, if they can not be merged to a convex quad
+    if (  orientation(v_proj_p1.xy(), v1_base.xy(), v2_base.xy()) != Orientation::CCW
+       || orientation(v1_base.xy(), v2_base.xy(), v_proj_p2.xy()) != Orientation::CCW 
+       || orientation(v2_base.xy(), v_proj_p2.xy(), v_proj_p1.xy()) != Orientation::CCW 
+       || orientation(v_proj_p2.xy(), v_proj_p1.xy(), v1_base.xy()) != Orientation::CCW )
+      return v_proj;
+
     // Merge both triangles t1 & t2 to a quad
     // --> First remove the interior edge between these triangles
     Edge* e_rem = mesh_.interior_edges().get_edge( v2_base, v_proj_p1 );
-- 
2.43.0


From 6f2678e1ecf9923045a1400ffbed7e761018634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:10 +0000
Subject: [PATCH 11/51] fix: quad layer generation reports failure when no
 front edge is left at its start or end

---
 src/algorithm/QuadLayering.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 79c3209..6942818 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -991,9 +991,10 @@ private:
     Edge* e_start = front_.get_edge(v_start, 1); 
     Edge* e_end   = front_.get_edge(v_end, 2); 
 
-    ASSERT((e_start && e_end), 
-      "QuadLayering::find_start_and_ending_edges(): "
-      "Vertex-edge-connectivity seems to be corrupted.");
+    // The closest vertices might not be part of the advancing front 
+    // anymore, e.g. due to a previously generated quad layer
+    if ( !e_start || !e_end )
+      return false;
 
     if ( !front_.is_traversable(*e_start, *e_end) )
     {
-- 
2.43.0


From a6344b5feec668644457497e4686cb92724bd950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:47 +0000
Subject: [PATCH 12/51] fix: quad tree children share their boundaries exactly,
 so that no item falls into a roundoff gap

---
 src/utils/QuadTree.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index c42377e..e72b266 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -441,6 +441,15 @@ protected:
 
 private:
 
+  /*------------------------------------------------------------------ 
+  | Set the bounding box of this quad
+  ------------------------------------------------------------------*/
+  void set_bounds(const Vec2<V>& lowleft, const Vec2<V>& upright)
+  {
+    lowleft_ = lowleft;
+    upright_ = upright;
+  }
+
   /*------------------------------------------------------------------ 
   | Merge QuadTree children
   ------------------------------------------------------------------*/
@@ -522,6 +531,13 @@ private:
     children_[3] = new QuadTree<T,V> 
     { halfscale_, max_item_, max_depth_, c3, child_depth, this};
 
+    // Let the children share their boundaries exactly, such that no gaps
+    // arise between them due to roundoff
+    children_[0]->set_bounds( center_, upright_ );
+    children_[1]->set_bounds( {lowleft_.x, center_.y}, {center_.x, upright_.y} );
+    children_[2]->set_bounds( lowleft_, center_ );
+    children_[3]->set_bounds( {center_.x, lowleft_.y}, {upright_.x, center_.y} );
+
     // Distribute items among children
     try 
     { 
-- 
2.43.0


From 2f27720f25acfa1f89820e6b69be950adb25f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:05 +0000
Subject: [PATCH 13/51] fix: angles of straight element corners do not become
 NaN

---
 src/algorithm/FacetGeometry.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/FacetGeometry.h b/src/algorithm/FacetGeometry.h
index e37a6e7..27e24f8 100644
--- a/src/algorithm/FacetGeometry.h
+++ b/src/algorithm/FacetGeometry.h
@@ -96,9 +96,9 @@ public:
     double l2 = edge_lengths[1];
     double l3 = edge_lengths[2];
 
-    double a1 = acos( dot( q-p,  r-p ) / (l1*l3) );
-    double a2 = acos( dot( p-q,  r-q ) / (l1*l2) );
-    double a3 = acos( dot( p-r,  q-r ) / (l2*l3) );
+    double a1 = acos( CLAMP(dot( q-p,  r-p ) / (l1*l3), -1.0, 1.0) );
+    double a2 = acos( CLAMP(dot( p-q,  r-q ) / (l1*l2), -1.0, 1.0) );
+    double a3 = acos( CLAMP(dot( p-r,  q-r ) / (l2*l3), -1.0, 1.0) );
 
     return { a1, a2, a3 };
   }
@@ -423,10 +423,10 @@ public:
     double l3 = edge_lengths[2];
     double l4 = edge_lengths[3];
 
-    double a1 = acos( dot( q-p,  s-p ) / (l4*l1) );
-    double a2 = acos( dot( p-q,  r-q ) / (l1*l2) );
-    double a3 = acos( dot( s-r,  q-r ) / (l2*l3) );
-    double a4 = acos( dot( r-s,  p-s ) / (l3*l4) );
+    double a1 = acos( CLAMP(dot( q-p,  s-p ) / (l4*l1), -1.0, 1.0) );
+    double a2 = acos( CLAMP(dot( p-q,  r-q ) / (l1*l2), -1.0, 1.0) );
+    double a3 = acos( CLAMP(dot( s-r,  q-r ) / (l2*l3), -1.0, 1.0) );
+    double a4 = acos( CLAMP(dot( r-s,  p-s ) / (l3*l4), -1.0, 1.0) );
 
     return { a1, a2, a3, a4 };
   }
-- 
2.43.0


From 09ea802ad116908f7f7f0f4e767a7e761b3dba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:39 +0000
Subject: [PATCH 14/51] fix: domain validity check rejects boundaries without
 edges instead of accessing their first edge

---
 src/algorithm/EntityChecks.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithm/EntityChecks.h b/src/algorithm/EntityChecks.h
index 0df8450..41de6e4 100644
--- a/src/algorithm/EntityChecks.h
+++ b/src/algorithm/EntityChecks.h
@@ -62,6 +62,12 @@ public:
     // Check if domain boundaries are traversable
     for ( const auto& boundary : domain )
     {
+      if ( boundary->size() < 1 )
+      {
+        LOG(ERROR) << "Invalid domain: Boundary without edges.";
+        return false;
+      }
+
       Edge& e_start = boundary->edges()[0];
 
       if ( !boundary->is_traversable(e_start, e_start) )
-- 
2.43.0


From 7c76921eff48d175e9251546ae4448e7efa9f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:06 +0000
Subject: [PATCH 15/51] fix: intersection checks of edge lists find long edges
 whose midpoint lies far away

---
 src/algorithm/EdgeList.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index 51085ab..5c2af74 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -396,11 +396,30 @@ public:
   } // get_closest_vertex()
 
 
+  /*------------------------------------------------------------------
+  | Returns the length of the longest edge
+  ------------------------------------------------------------------*/
+  double max_edge_length(void) const
+  {
+    double length = 0.0;
+
+    for ( const auto& e_ptr : edges_ )
+      length = MAX( length, e_ptr->length() );
+
+    return length;
+
+  } // max_edge_length()
+
   /*------------------------------------------------------------------
   | Check if two edges of this edgelist intersect
   ------------------------------------------------------------------*/
   bool intersects_self(void) const
   {
+    // Edges are located by their midpoints, so the search area must 
+    // be enlarged by half the length of the longest edge
+    const double range = 0.5 * max_edge_length();
+    const Vec2d d_range { range, range };
+
     for ( const auto& e_ptr : edges_ )
     {
       Edge* e_prev = e_ptr->get_prev_edge();
@@ -412,7 +431,7 @@ public:
       const Vec2d ll = { MIN(xy_1.x, xy_2.x), MIN(xy_1.y, xy_2.y) };
       const Vec2d ur = { MAX(xy_1.x, xy_2.x), MAX(xy_1.y, xy_2.y) };
 
-      auto found_edges = edges_.get_items(ll, ur);
+      auto found_edges = edges_.get_items(ll-d_range, ur+d_range);
 
       for ( const auto& e_found : found_edges )
       {
@@ -438,6 +457,11 @@ public:
   ------------------------------------------------------------------*/
   bool intersects_edgelist(const EdgeList& edge_list) const
   {
+    // Edges are located by their midpoints, so the search area must 
+    // be enlarged by half the length of the longest edge
+    const double range = 0.5 * edge_list.max_edge_length();
+    const Vec2d d_range { range, range };
+
     for ( const auto& e_ptr : edges_ )
     {
       const Vec2d& xy_1 = e_ptr->v1().xy();
@@ -446,7 +470,7 @@ public:
       const Vec2d ll = { MIN(xy_1.x, xy_2.x), MIN(xy_1.y, xy_2.y) };
       const Vec2d ur = { MAX(xy_1.x, xy_2.x), MAX(xy_1.y, xy_2.y) };
 
-      auto found_edges = edge_list.edges().get_items(ll, ur);
+      auto found_edges = edge_list.edges().get_items(ll-d_range, ur+d_range);
 
       for ( const auto& e_found : found_edges )
       {
-- 
2.43.0


From df1d8eec16a766c25ace51284b8106c980f8229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:09 +0000
Subject: [PATCH 16/51] fix: points on any boundary segment are treated as
 inside

---
 src/algorithm/EdgeList.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index 5c2af74..d42302e 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -247,9 +247,8 @@ public:
         return true;
 
       // Object on edge
-      if ( EQ( obj.y, v2.y ) && EQ( obj.y, v1.y ) )
-        if ( in_on_segment(v1, v2, obj) )
-          return true;
+      if ( in_on_segment(v1, v2, obj) )
+        return true;
 
       // Crossing lines
       if (  ( obj.y > v2.y  &&  obj.y <= v1.y )
-- 
2.43.0


From 97eccd109fd7e843b2a59c0dd7c534d54a35989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 17/51] fix: quad layers do not invert elements of previous
 layers when they shift front vertices

---
 src/algorithm/QuadLayering.h | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 6942818..08185f6 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -290,8 +290,10 @@ private:
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_prev_new = v1_base_[0]->xy() + delta_1 * s;
 
-      // Corners of the boundary must not be shifted 
-      if ( !can_be_shifted(v_prev, v_start, e_prev, e_prev->get_prev_edge()) )
+      // Corners of the boundary must not be shifted and elements of
+      // previously generated layers must not be inverted
+      if ( !can_be_shifted(v_prev, v_start, e_prev, e_prev->get_prev_edge())
+         || !facets_stay_valid(v_prev, v_prev_new) )
       {
         v1_proj_xy_[0] = v_prev.xy();
         return;
@@ -426,8 +428,10 @@ private:
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_next_new = v_end.xy() + delta_1 * s;
 
-      // Corners of the boundary must not be shifted 
-      if ( !can_be_shifted(v_next, v_end, e_next, e_next->get_next_edge()) )
+      // Corners of the boundary must not be shifted and elements of
+      // previously generated layers must not be inverted
+      if ( !can_be_shifted(v_next, v_end, e_next, e_next->get_next_edge())
+         || !facets_stay_valid(v_next, v_next_new) )
       {
         v2_proj_xy_.back() = v_next.xy();
         return;
@@ -520,6 +524,28 @@ private:
 
   } // QuadLayerVertices::can_be_shifted()
 
+  /*------------------------------------------------------------------
+  | Check if all facets that are adjacent to the vertex <v> remain 
+  | convex, when <v> is moved to the position <xy>.
+  ------------------------------------------------------------------*/
+  bool facets_stay_valid(const Vertex& v, const Vec2d& xy) const
+  {
+    for ( const auto& f : v.facets() )
+    {
+      const size_t n = f->n_vertices();
+
+      auto corner = [&](size_t i) -> const Vec2d&
+      { return f->vertex(i%n) == v ? xy : f->vertex(i%n).xy(); };
+
+      for ( size_t i = 0; i < n; ++i )
+        if ( orientation(corner(i), corner(i+1), corner(i+2)) != Orientation::CCW )
+          return false;
+    }
+
+    return true;
+
+  } // QuadLayerVertices::facets_stay_valid()
+
   /*------------------------------------------------------------------
   | Add a new edge to the quad layer structure
   ------------------------------------------------------------------*/
-- 
2.43.0


From 88e6624ed4d66589e13e0c7a5d47e0eb46ac9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:30 +0000
Subject: [PATCH 18/51] fix: new triangles are checked against long front edges
 whose midpoint lies far away

---
 src/algorithm/FrontUpdate.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm/FrontUpdate.h b/src/algorithm/FrontUpdate.h
index ec9f55c..f156e85 100644
--- a/src/algorithm/FrontUpdate.h
+++ b/src/algorithm/FrontUpdate.h
@@ -358,6 +358,14 @@ private:
     if ( tri.max_angle() > max_cell_angle_ )
     { DEBUG_LOG("  > BAD MAXIMUM ANGLE"); return false; }
 
+    // Front edges are located by their midpoints, so the range of the
+    // above check might be too small to find long edges
+    const double front_range 
+      = tri.max_edge_length() + 0.5 * front_.max_edge_length();
+
+    if ( front_range > range && tri.intersects_front( front_, front_range ) )
+    { DEBUG_LOG("  > FRONT INTERSECTION"); return false; }
+
     DEBUG_LOG("  > VALID");
     return true;
 
-- 
2.43.0


From 4e9f55a47208b2e462bf8af12097643b6f09bc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:43 +0000
Subject: [PATCH 19/51] fix: vertices of refined boundary segments stay in
 order between the segment ends

---
 src/algorithm/Front.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/Front.h b/src/algorithm/Front.h
index 846329a..566af86 100644
--- a/src/algorithm/Front.h
+++ b/src/algorithm/Front.h
@@ -463,8 +463,22 @@ private:
         [rho_tot](double &v){ return v/rho_tot; });
 
     // Distribute cropped distance among new vertices
-    for ( std::size_t i = 1; i < xy_new.size()-1; i++)
-      xy_new[i] += rho_i[i] * d_cr;
+    std::vector<Vec2d> xy_cr { xy_new };
+    for ( std::size_t i = 1; i < xy_cr.size()-1; i++)
+      xy_cr[i] += rho_i[i] * d_cr;
+
+    // The size function might vary too strongly to distribute the 
+    // cropped distance in this way - in this case, scale the 
+    // distances of all vertices to the starting vertex
+    bool is_ordered = true;
+    for ( std::size_t i = 1; i < xy_cr.size(); i++)
+      is_ordered &= ( dot(xy_cr[i] - xy_cr[i-1], tang) > 0.0 );
+
+    if ( !is_ordered )
+      for ( std::size_t i = 1; i < xy_new.size()-1; i++)
+        xy_cr[i] = v_a.xy() + (xy_new[i] - v_a.xy()) / s_last;
+
+    xy_new = xy_cr;
 
 #ifndef NDEBUG
     // Check that all nodes are ordered ascendingly
-- 
2.43.0


From 1026d2624c6e06f045293a194e661047541850c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 20/51] fix: merge_meshes reports a failed merge

---
 src/algorithm/MeshGenerator.h | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 8132eb1..c7884de 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -116,23 +116,21 @@ public:
       return false;
 
     MeshMerger merger ( receiver, donor );
-    bool success = merger.merge();
+    if ( !merger.merge() )
+      return false;
 
-    if ( success ) 
-    {
-      auto it = std::find_if(meshes_.begin(), meshes_.end(), 
-        [&donor](const std::unique_ptr<Mesh>& ptr)
-        { return ptr.get() ==&donor; }
-      );
+    auto it = std::find_if(meshes_.begin(), meshes_.end(), 
+      [&donor](const std::unique_ptr<Mesh>& ptr)
+      { return ptr.get() ==&donor; }
+    );
 
-      if (it == meshes_.end())
-        return false;
+    if (it == meshes_.end())
+      return false;
 
-      if ( !mesh_builder_.remove_mesh_and_domain(donor) )
-        return false;
+    if ( !mesh_builder_.remove_mesh_and_domain(donor) )
+      return false;
 
-      meshes_.erase( it );
-    }
+    meshes_.erase( it );
 
     return true;
 
-- 
2.43.0


From 4d5fa495996b41134d583d716184c9bdefbef9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:48 +0000
Subject: [PATCH 21/51] fix: quad layers do not shift or split the interface to
 neighbor meshes

---
 src/algorithm/QuadLayering.h | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 08185f6..e3b6da9 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -304,15 +304,15 @@ private:
       return;
     }
 
-    // Scenario 2
+    // Get a pointer to the previous edge in the mesh data structure,
+    // since it might be removed later on
+    Edge* e_bdry_rem 
+      = mesh_bdry_edges.get_edge(e_prev->v1(), e_prev->v2());
+
+    // Scenario 2 (interfaces to neighbor meshes must not be split)
     // ----------
-    if ( h < e_prev->length() )
+    if ( h < e_prev->length() && !( e_bdry_rem && e_bdry_rem->twin_edge() ) )
     {
-      // Get a pointer to the previous edge in the mesh data structure,
-      // since it will be removed later on
-      Edge* e_bdry_rem 
-        = mesh_bdry_edges.get_edge(e_prev->v1(), e_prev->v2());
-
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_prev.xy() - v_start.xy();
       const Vec2d d2 = v1_proj_xy_[0] - v_start.xy();
@@ -442,14 +442,14 @@ private:
       return;
     }
 
-    // Scenario 2
+    // Get a pointer to the next edge in the mesh data structure,
+    // since it might be removed later on
+    Edge* e_bdry_rem = bdry_edges.get_edge(e_next->v1(), e_next->v2());
+
+    // Scenario 2 (interfaces to neighbor meshes must not be split)
     // ----------
-    if ( h < e_next->length() )
+    if ( h < e_next->length() && !( e_bdry_rem && e_bdry_rem->twin_edge() ) )
     {
-      // Get a pointer to the next edge in the mesh data structure,
-      // since it will be removed later on
-      Edge* e_bdry_rem = bdry_edges.get_edge(e_next->v1(), e_next->v2());
-
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_next.xy() - v_end.xy();
       const Vec2d d2 = v2_proj_xy_.back() - v_end.xy();
@@ -504,7 +504,8 @@ private:
   | Check if a vertex <v>, which is connected to a vertex <w> through 
   | the edge <e>, can be shifted along this edge.
   | Vertices on the boundary can only be shifted if they are located in 
-  | between two aligned boundary edges <e> and <e_adj>.
+  | between two aligned boundary edges <e> and <e_adj>. Vertices on the
+  | interface to a neighbor mesh are never shifted.
   ------------------------------------------------------------------*/
   bool can_be_shifted(const Vertex& v, const Vertex& w, 
                       const Edge* e, const Edge* e_adj) const
@@ -515,6 +516,10 @@ private:
     if ( !v.on_boundary() )
       return true;
 
+    for ( const auto& edge : v.edges() )
+      if ( edge->twin_edge() )
+        return false;
+
     if ( !e_adj || !e->on_boundary() || !e_adj->on_boundary() )
       return false;
 
-- 
2.43.0


From 6e44805672e23c1ace115fdb2fdc712f69ac724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 22/51] fix: tri2quad conversion does not merge triangles of
 different colors

---
 src/algorithm/ModificationStrategy.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/ModificationStrategy.h b/src/algorithm/ModificationStrategy.h
index 501a7f6..fce8b8f 100644
--- a/src/algorithm/ModificationStrategy.h
+++ b/src/algorithm/ModificationStrategy.h
@@ -99,8 +99,8 @@ private:
 
   /*------------------------------------------------------------------
   | This function collects all internal edges that are adjacent to
-  | two triangles and sorts them with increasing minimum triangle
-  | edge length.
+  | two triangles of the same color and sorts them with increasing 
+  | minimum triangle edge length.
   ------------------------------------------------------------------*/
   void collect_triangle_edges()
   {
@@ -111,7 +111,8 @@ private:
       Facet* f_r = e_ptr->facet_r();
 
       if (  ( NullFacet::is_not_null(f_l) && f_l->n_vertices() == 3 )
-         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 ) )
+         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 )
+         && ( f_l->color() == f_r->color() ) )
         tri_edges_.push_back( e_ptr.get() );
     }
 
-- 
2.43.0


From 4eeda8f08ccb6acc165eba10b55cf2819019a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:54 +0000
Subject: [PATCH 23/51] fix: vertices shifted by quad layers remain between
 their neighbors

---
 src/algorithm/QuadLayering.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index e3b6da9..3e4af71 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -292,7 +292,7 @@ private:
 
       // Corners of the boundary must not be shifted and elements of
       // previously generated layers must not be inverted
-      if ( !can_be_shifted(v_prev, v_start, e_prev, e_prev->get_prev_edge())
+      if ( !can_be_shifted(v_prev, v_start, v_prev_new, e_prev, e_prev->get_prev_edge())
          || !facets_stay_valid(v_prev, v_prev_new) )
       {
         v1_proj_xy_[0] = v_prev.xy();
@@ -430,7 +430,7 @@ private:
 
       // Corners of the boundary must not be shifted and elements of
       // previously generated layers must not be inverted
-      if ( !can_be_shifted(v_next, v_end, e_next, e_next->get_next_edge())
+      if ( !can_be_shifted(v_next, v_end, v_next_new, e_next, e_next->get_next_edge())
          || !facets_stay_valid(v_next, v_next_new) )
       {
         v2_proj_xy_.back() = v_next.xy();
@@ -502,12 +502,13 @@ private:
 
   /*------------------------------------------------------------------
   | Check if a vertex <v>, which is connected to a vertex <w> through 
-  | the edge <e>, can be shifted along this edge.
+  | the edge <e>, can be shifted along this edge to the position <xy>.
   | Vertices on the boundary can only be shifted if they are located in 
-  | between two aligned boundary edges <e> and <e_adj>. Vertices on the
-  | interface to a neighbor mesh are never shifted.
+  | between two aligned boundary edges <e> and <e_adj>, and they must
+  | remain there. Vertices on the interface to a neighbor mesh are 
+  | never shifted.
   ------------------------------------------------------------------*/
-  bool can_be_shifted(const Vertex& v, const Vertex& w, 
+  bool can_be_shifted(const Vertex& v, const Vertex& w, const Vec2d& xy,
                       const Edge* e, const Edge* e_adj) const
   {
     if ( v.is_fixed() )
@@ -525,7 +526,13 @@ private:
 
     const Vertex& u = ( e_adj->v1() == v ) ? e_adj->v2() : e_adj->v1();
 
-    return orientation(u.xy(), v.xy(), w.xy()) == Orientation::CL;
+    if ( orientation(u.xy(), v.xy(), w.xy()) != Orientation::CL )
+      return false;
+
+    const Vec2d delta = u.xy() - w.xy();
+    const double s = dot(xy - w.xy(), delta) / delta.norm_sqr();
+
+    return ( s > 0.0 && s < 1.0 );
 
   } // QuadLayerVertices::can_be_shifted()
 
-- 
2.43.0


From 3652b6b0d10d07aa2d13b521e53a8d86b519ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:25 +0000
Subject: [PATCH 24/51] fix: quad layers do not shift vertices that define the
 domain

---
 src/algorithm/QuadLayering.h | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 3e4af71..cac0e8c 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -140,7 +140,8 @@ public:
   | projected base vertices. In the case of a QuadLayerVertices that 
   | is not closed, adjacent edges are eventually refined. 
   ------------------------------------------------------------------*/
-  void setup_vertex_projection(Mesh& mesh, Front& front)
+  void setup_vertex_projection(Mesh& mesh, Front& front, 
+                               const Domain& domain)
   {
     // Update coordinates of projected base vertices
     for ( size_t i = 1; i < base_edges_.size(); ++i )
@@ -152,8 +153,10 @@ public:
     }
     else
     {
-      place_start_vertex(mesh.vertices(), front, mesh.boundary_edges());
-      place_end_vertex(mesh.vertices(), front, mesh.boundary_edges());
+      place_start_vertex(mesh.vertices(), front, 
+                         mesh.boundary_edges(), domain.vertices());
+      place_end_vertex(mesh.vertices(), front, 
+                       mesh.boundary_edges(), domain.vertices());
     }
 
   } // QuadLayerVertices::setup_vertex_projection()
@@ -254,7 +257,8 @@ private:
   ------------------------------------------------------------------*/
   void place_start_vertex(Vertices& mesh_vertices, 
                           Front&    front, 
-                          EdgeList& mesh_bdry_edges)
+                          EdgeList& mesh_bdry_edges,
+                          const Vertices& domain_verts)
   {
     // The edge adjacent to the starting edge
     Edge* e_prev = e_start_->get_prev_edge();
@@ -292,7 +296,7 @@ private:
 
       // Corners of the boundary must not be shifted and elements of
       // previously generated layers must not be inverted
-      if ( !can_be_shifted(v_prev, v_start, v_prev_new, e_prev, e_prev->get_prev_edge())
+      if ( !can_be_shifted(domain_verts, v_prev, v_start, v_prev_new, e_prev, e_prev->get_prev_edge())
          || !facets_stay_valid(v_prev, v_prev_new) )
       {
         v1_proj_xy_[0] = v_prev.xy();
@@ -386,7 +390,8 @@ private:
   ------------------------------------------------------------------*/
   void place_end_vertex(Vertices& verts, 
                         Front&    front, 
-                        EdgeList& bdry_edges)
+                        EdgeList& bdry_edges,
+                        const Vertices& domain_verts)
   {
     // The edge adjacent to the starting edge
     Edge* e_next = e_end_->get_next_edge();
@@ -430,7 +435,7 @@ private:
 
       // Corners of the boundary must not be shifted and elements of
       // previously generated layers must not be inverted
-      if ( !can_be_shifted(v_next, v_end, v_next_new, e_next, e_next->get_next_edge())
+      if ( !can_be_shifted(domain_verts, v_next, v_end, v_next_new, e_next, e_next->get_next_edge())
          || !facets_stay_valid(v_next, v_next_new) )
       {
         v2_proj_xy_.back() = v_next.xy();
@@ -505,10 +510,11 @@ private:
   | the edge <e>, can be shifted along this edge to the position <xy>.
   | Vertices on the boundary can only be shifted if they are located in 
   | between two aligned boundary edges <e> and <e_adj>, and they must
-  | remain there. Vertices on the interface to a neighbor mesh are 
-  | never shifted.
+  | remain there. Vertices of the domain and vertices on the interface
+  | to a neighbor mesh are never shifted.
   ------------------------------------------------------------------*/
-  bool can_be_shifted(const Vertex& v, const Vertex& w, const Vec2d& xy,
+  bool can_be_shifted(const Vertices& domain_verts,
+                      const Vertex& v, const Vertex& w, const Vec2d& xy,
                       const Edge* e, const Edge* e_adj) const
   {
     if ( v.is_fixed() )
@@ -517,6 +523,9 @@ private:
     if ( !v.on_boundary() )
       return true;
 
+    if ( domain_verts.get_items(v.xy(), v.xy()).size() > 0 )
+      return false;
+
     for ( const auto& edge : v.edges() )
       if ( edge->twin_edge() )
         return false;
@@ -719,7 +728,7 @@ private:
                                           closed_layer_, height,
                                           angle_factor_ };
     quad_layer_verts.smooth_heights( domain_ );
-    quad_layer_verts.setup_vertex_projection( mesh_, front_ );
+    quad_layer_verts.setup_vertex_projection( mesh_, front_, domain_ );
 
     // For each base edge in the quad layer, try to create a quad
     // element with its given projected coordinates
-- 
2.43.0


From 95797ea53392287efac2e7427ce0c315dc8bb3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:08 +0000
Subject: [PATCH 25/51] fix: algorithms of a merged donor mesh are not reused
 for other meshes

---
 src/algorithm/MeshGenerator.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index c7884de..444bd70 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -130,6 +130,9 @@ public:
     if ( !mesh_builder_.remove_mesh_and_domain(donor) )
       return false;
 
+    // Algorithms must not outlive the mesh they have been set up for
+    reset_algorithms( donor );
+
     meshes_.erase( it );
 
     return true;
@@ -246,6 +249,36 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | Reset all algorithms that are set up for a specified mesh.
+  ------------------------------------------------------------------*/
+  void reset_algorithms(Mesh& mesh)
+  {
+    if ( meshing_algorithm_ && &meshing_algorithm_->mesh() == &mesh )
+    {
+      meshing_algorithm_.reset();
+      meshing_algorithm_type_ = MeshingAlgorithm::None;
+    }
+
+    if ( smoothing_algorithm_ && &smoothing_algorithm_->mesh() == &mesh )
+    {
+      smoothing_algorithm_.reset();
+      smoothing_algorithm_type_ = SmoothingAlgorithm::None;
+    }
+
+    if ( refinement_algorithm_ && &refinement_algorithm_->mesh() == &mesh )
+    {
+      refinement_algorithm_.reset();
+      refinement_algorithm_type_ = RefinementAlgorithm::None;
+    }
+
+    if ( modification_algorithm_ && &modification_algorithm_->mesh() == &mesh )
+    {
+      modification_algorithm_.reset();
+      modification_algorithm_type_ = ModificationAlgorithm::None;
+    }
+  }
+
   /*------------------------------------------------------------------
   | Set a mesh generation algorithm for a specified mesh.
   | Returns false if the mesh is not connected to this MeshGenerator
-- 
2.43.0


From a900a18fd5709145c910878c92c6cc435ec24cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 26/51] fix: merged meshes share the vertices in which they
 only touch

---
 src/algorithm/MeshMerger.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/MeshMerger.h b/src/algorithm/MeshMerger.h
index 492fd5d..7243cc1 100644
--- a/src/algorithm/MeshMerger.h
+++ b/src/algorithm/MeshMerger.h
@@ -139,7 +139,8 @@ private:
 
   /*------------------------------------------------------------------
   | Copy all donor vertices to the receiver, which have not been
-  | flagged as interface boundary vertices
+  | flagged as interface boundary vertices. Boundary vertices, where 
+  | both meshes touch in a single point, are not copied either.
   ------------------------------------------------------------------*/
   void copy_donor_vertices()
   {
@@ -147,6 +148,11 @@ private:
     {
       auto v_index = v_ptr->index();
 
+      if ( !new_vertices_[v_index] && v_ptr->on_boundary() )
+        for ( Vertex* v : receiver_->vertices().get_items(v_ptr->xy(), v_ptr->xy()) )
+          if ( v->on_boundary() )
+            new_vertices_[v_index] = v;
+
       if ( !new_vertices_[v_index] )
       {
         Vertex& v_new = receiver_->add_vertex( v_ptr->xy() );
-- 
2.43.0


From 9a8cdd39f2e921144d598c6075c402f26b86a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:59 +0000
Subject: [PATCH 27/51] fix: quad layers do not split front edges that are
 sides of existing elements

---
 src/algorithm/QuadLayering.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index cac0e8c..89db0e8 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -313,9 +313,10 @@ private:
     Edge* e_bdry_rem 
       = mesh_bdry_edges.get_edge(e_prev->v1(), e_prev->v2());
 
-    // Scenario 2 (interfaces to neighbor meshes must not be split)
+    // Scenario 2 (only boundary edges can be split, but neither interfaces 
+    // to neighbor meshes nor sides of already generated elements)
     // ----------
-    if ( h < e_prev->length() && !( e_bdry_rem && e_bdry_rem->twin_edge() ) )
+    if ( h < e_prev->length() && e_bdry_rem && !e_bdry_rem->twin_edge() )
     {
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_prev.xy() - v_start.xy();
@@ -451,9 +452,10 @@ private:
     // since it might be removed later on
     Edge* e_bdry_rem = bdry_edges.get_edge(e_next->v1(), e_next->v2());
 
-    // Scenario 2 (interfaces to neighbor meshes must not be split)
+    // Scenario 2 (only boundary edges can be split, but neither interfaces 
+    // to neighbor meshes nor sides of already generated elements)
     // ----------
-    if ( h < e_next->length() && !( e_bdry_rem && e_bdry_rem->twin_edge() ) )
+    if ( h < e_next->length() && e_bdry_rem && !e_bdry_rem->twin_edge() )
     {
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_next.xy() - v_end.xy();
-- 
2.43.0


From 94332ee7b68d960c30162e54b42b840128fbb35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:57 +0000
Subject: [PATCH 28/51] fix: mesh export reports files that could not be
 written

---
 src/algorithm/MeshWriter.h | 6 ++----
 src/utils/VtkIO.h          | 4 +++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/MeshWriter.h b/src/algorithm/MeshWriter.h
index b382b83..d57b263 100644
--- a/src/algorithm/MeshWriter.h
+++ b/src/algorithm/MeshWriter.h
@@ -90,7 +90,7 @@ private:
 
     outfile.close();
 
-    return true;
+    return outfile.good();
 
   } // MeshWriter::write_to_txt()
 
@@ -184,9 +184,7 @@ private:
     writer.add_cell_data( max_angle, "max_angle", 1 );
     writer.add_cell_data( cell_quality, "cell_quality", 1 );
 
-    writer.write( fullpath );
-
-    return true;
+    return writer.write( fullpath );
 
   } // MeshWriter::write_to_vtu()
 
diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 7add4a4..eaf8108 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -179,7 +179,7 @@ public:
   /*------------------------------------------------------------------
   | Write the VTU file
   ------------------------------------------------------------------*/
-  void write(const std::string& file_name)
+  bool write(const std::string& file_name)
   {
     std::ofstream outfile;
     outfile.open(file_name);
@@ -221,6 +221,8 @@ public:
 
     outfile.close();
 
+    return outfile.good();
+
   } // VtuWriter::write()
 
 private:
-- 
2.43.0


From 937a5f8bfefd8273c12afe435db2beea963892fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:57 +0000
Subject: [PATCH 29/51] fix: convert2foam keeps the markers with their boundary
 edges

---
 scripts/convert2foam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index d8abfbe..78857d2 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -223,7 +223,7 @@ class TQMesh:
         self._sort_intr_edges()
         self._sort_bdry_edges()
 
-        bdry_ids = np.argsort(self.bdry_marker)
+        bdry_ids = np.argsort(self.bdry_marker, kind='stable')
         self.bdry_marker = self.bdry_marker[bdry_ids]
         self.bdry_edges = self.bdry_edges[bdry_ids]
         self.bdry_elems = self.bdry_elems[bdry_ids]
@@ -247,6 +247,7 @@ class TQMesh:
         ids = np.argsort(self.bdry_elems)
         self.bdry_edges = self.bdry_edges[ids]
         self.bdry_elems = self.bdry_elems[ids]
+        self.bdry_marker = self.bdry_marker[ids]
 
 
     def _swap_intr_edges(self):
-- 
2.43.0


From 74d8d1ac4b27dca1a22ddfeea30da38bbd650b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:57 +0000
Subject: [PATCH 30/51] fix: convert2foam writes interior faces in
 upper-triangular order

---
 scripts/convert2foam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index 78857d2..15a47c5 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -229,12 +229,12 @@ class TQMesh:
         self.bdry_elems = self.bdry_elems[bdry_ids]
 
     def _sort_intr_edges(self):
-        ''' Sort interior edges by indices of their left
-        neighbouring elements.
+        ''' Sort interior edges by indices of their right and left
+        neighbouring elements (owner and neighbour cell).
         '''
         if self.intr_elems.shape[0] < 1:
             return
-        ids = np.argsort(self.intr_elems[:,0])
+        ids = np.lexsort((self.intr_elems[:,0], self.intr_elems[:,1]))
         self.intr_edges = self.intr_edges[ids]
         self.intr_elems = self.intr_elems[ids]
 
-- 
2.43.0


From d8ceb5356696aab1fe1c8ff895d515d3557fbd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:58 +0000
Subject: [PATCH 31/51] fix: convert2foam lists patches in the order of their
 faces

---
 scripts/convert2foam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index 15a47c5..62e8995 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -437,7 +437,7 @@ class OpenFOAMMesh:
         boundary_data = []
         for name, (start_face, n_faces) in self.boundaries.items():
             boundary_data.append([name, (start_face, n_faces)])
-        boundary_data.sort(key = lambda entry: entry[0])
+        boundary_data.sort(key = lambda entry: entry[1][0])
 
         for name, (start_face, n_faces) in boundary_data:
             boundary_str += '    {:}\n    {{\n'.format(name)
-- 
2.43.0


From 9067d06423942a754226759426d2aff6ce694a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:58 +0000
Subject: [PATCH 32/51] fix: convert2foam keeps the digits of the mesh
 coordinates

---
 scripts/convert2foam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index 62e8995..1c060b6 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -383,7 +383,7 @@ class OpenFOAMMesh:
     def _write_points(self, mesh_dir):
         point_str = '\n{:}\n(\n'.format(self.points.shape[0])
         for (x,y,z) in self.points:
-            point_str += '({:g} {:g} {:g})\n'.format(x,y,z)
+            point_str += '({:.10g} {:.10g} {:.10g})\n'.format(x,y,z)
         point_str += ')\n'
 
         with open(os.path.join(mesh_dir, 'points'), 'w') as file:
-- 
2.43.0


From 97f5a456698c41153c4d2413cef26f29e1575e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:49 +0000
Subject: [PATCH 33/51] fix: VTU data arrays are destroyed through a virtual
 destructor

---
 src/utils/VtkIO.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index eaf8108..015db45 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -76,6 +76,7 @@ inline const char* VtkIOTypeTraits<double>::name = "Float64";
 class VtkIODataInterface
 {
 public:
+  virtual ~VtkIODataInterface() {}
   virtual const std::string& name() const = 0;
   virtual size_t dim() const = 0;
   virtual const char* type() const = 0;
-- 
2.43.0


From 2d56e5562c1b0177d5a3873e93e7c7a671a7d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 34/51] fix: exported interfaces refer to the current elements
 of neighboring meshes

---
 src/algorithm/MeshWriter.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/algorithm/MeshWriter.h b/src/algorithm/MeshWriter.h
index d57b263..e943d7e 100644
--- a/src/algorithm/MeshWriter.h
+++ b/src/algorithm/MeshWriter.h
@@ -8,6 +8,8 @@
 #pragma once
 
 #include <TQMeshConfig.h>
+#include <set>
+
 #include "STLHeaders.h"
 #include "CppUtils.h"
 
@@ -54,6 +56,19 @@ public:
     MeshCleanup::assign_mesh_indices(*mesh_);
     MeshCleanup::setup_facet_connectivity(*mesh_);
 
+    // Interfaces refer to the elements of neighboring meshes 
+    std::set<Mesh*> neighbor_meshes {};
+
+    for ( auto& e_ptr : mesh_->get_interface_edges() )
+      for ( auto& f_ptr : e_ptr->twin_edge()->v1().facets() )
+        neighbor_meshes.insert( f_ptr->mesh() );
+
+    for ( auto& m_ptr : neighbor_meshes )
+    {
+      MeshCleanup::assign_mesh_indices(*m_ptr);
+      MeshCleanup::setup_facet_connectivity(*m_ptr);
+    }
+
     switch (export_type)
     {
       case MeshExportType::COUT:
-- 
2.43.0


From 449aa896c7e90e64a46c6fe44a6701815af9ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:09 +0000
Subject: [PATCH 35/51] fix: trailing comments are not part of the parameter
 file content

---
 src/utils/ParaReader.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index b3d65e7..ed5d98c 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -936,8 +936,9 @@ private:
       if ( l_cpy[0] == '#' )
         continue;
       
-      // Add line to content, if it not a comment line
-      content->push_back(line);
+      // Add line to content, if it not a comment line. 
+      // Remove everything behind the comment identifier
+      content->push_back( line.substr(0, line.find(ParaFileComment)) );
     }
 
     if (!ifs.eof()) 
-- 
2.43.0


From 599daee2145024284dbabeabfe46043f1ca79208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:09 +0000
Subject: [PATCH 36/51] fix: empty lines are no rows of matrix parameters

---
 src/utils/ParaReader.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index ed5d98c..351f014 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -752,7 +752,13 @@ private:
     std::vector<string> sub_strings {};
 
     for (size_t i = start_data.line_index+1; i < end_data.line_index; i++)
+    {
+      // Empty lines are no rows of the matrix
+      if ( content[i].find_first_not_of(" \t\r\n\v\f") == string::npos )
+        continue;
+
       sub_strings.push_back( content[i] );
+    }
 
     // Convert substring to a vector of type T
     std::vector<T> out = process_matrix_query(para, sub_strings, 
-- 
2.43.0


From 309367359a58c3d43d6fbe91293170bd16b7cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:09 +0000
Subject: [PATCH 37/51] fix: matrix parameters without any rows are empty

---
 src/utils/ParaReader.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index 351f014..e9f0bbb 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -257,9 +257,9 @@ public:
   size_t columns() const { return ncol_; }
   size_t rows() const { return nrow_; }
 
-  void resize() 
+  void resize(size_t nrow = 1) 
   { 
-    nrow_ = 1;
+    nrow_ = nrow;
     values_.resize( ncol_ ); 
   }
 
@@ -772,7 +772,7 @@ private:
       return false;
 
     // Resize the parameter values to initial size 
-    para.resize();
+    para.resize( n_rows > 0 ? 1 : 0 );
 
     for ( size_t j = 0; j < n_rows; ++j )
     {
-- 
2.43.0


From a9fac5f3cdd86fa3d6b9455f50cbf61f0eec6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:19 +0000
Subject: [PATCH 38/51] fix: the extent of the domain accounts for exterior
 boundaries that are not defined by edges

---
 src/app/TQMeshApp.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 59d0a18..3355548 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -586,7 +586,7 @@ private:
     Vertices& vertices = domain.vertices();
 
     // External boundary definition via direct edge placement
-    if ( mesh_reader.query<int>("extr_bdry_edges") )
+    if ( extr_bdry_from_edges_ )
     {
       auto para_extr_bdry 
         = mesh_reader.get_parameter<int>("extr_bdry_edges");
@@ -808,6 +808,8 @@ private:
     vertex_fixed_.clear();
     domain_extent_ = 0.0;
 
+    extr_bdry_from_edges_ = mesh_reader.query<int>("extr_bdry_edges");
+
     // Vertices are given in the input file
     // -> Put vertex coordinates and properties into arrays 
     //    and set domain extents
@@ -840,12 +842,11 @@ private:
       // Double extent and enlarge slightly
       domain_extent_ *= 2.1;
     }
-    // No input vertices given 
+
+    // Exterior boundary is not made up from the input vertices
     // -> Set domain extent to large value
-    else
-    {
+    if ( !extr_bdry_from_edges_ )
       domain_extent_  = TQ_MAX;
-    }
 
   } // MeshConstruction::init_mesh_vertices()
 
@@ -888,6 +889,7 @@ private:
   std::vector<bool>       vertex_fixed_;
 
   double                  domain_extent_;
+  bool                    extr_bdry_from_edges_ { false };
   std::unique_ptr<Domain> domain_;
 
   std::vector<Vec2dPair>  quad_layer_vertices_ {};
-- 
2.43.0


From 3915964a010343b423bd285b3f55197b933db96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:43 +0000
Subject: [PATCH 39/51] fix: exterior boundary edges must not refer to the
 vertex behind the last one

---
 src/app/TQMeshApp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 3355548..d62708e 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -602,7 +602,7 @@ private:
         int    m  = para_extr_bdry.get_value(2, i);
 
         // Throw error if indices are larger than number of vertices
-        if ( i1 > n_vertices || i2 > n_vertices )
+        if ( i1 >= n_vertices || i2 >= n_vertices )
           throw_error("Invalid exterior boundary definition: " 
             "Some vertex index is larger that the number of "
             "provided input vertices.");
-- 
2.43.0


From f1ae78231b3b8a1a205a123793dc0ea6bff9da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:43 +0000
Subject: [PATCH 40/51] fix: the application reports meshes that could not be
 written

---
 src/app/TQMeshApp.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index d62708e..92d76c4 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -205,23 +205,28 @@ private:
     LOG(INFO) << "\n";
 
     // Export the mesh
+    bool exported = false;
+
     if ( output_format_ == "VTU" || output_format_ == "vtu" )
     {
       std::string filename { output_prefix_ + ".vtu" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU);
+      exported = mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU);
     }
     else if ( output_format_ == "TXT" || output_format_ == "txt" )
     {
       std::string filename { output_prefix_ + ".txt" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT);
+      exported = mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT);
     }
     else
     {
-      mesh_generator_.write_mesh(mesh, "DUMMY", MeshExportType::COUT);
+      exported = mesh_generator_.write_mesh(mesh, "DUMMY", MeshExportType::COUT);
     }
 
+    if ( !exported )
+      LOG(ERROR) << "Failed to write the mesh.";
+
     // Check if meshing algorithm succeeded
     MeshChecker mesh_check { mesh, domain };
     if ( !mesh_check.check_completeness() )
@@ -231,7 +236,7 @@ private:
     }
 
     // Mesh generation succeeded 
-    return true;
+    return exported;
 
   } // MeshConstruction::generate_mesh()
 
-- 
2.43.0


From f614c0ad9bcf7a42882a3e773d9adf8772d83802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:11 +0000
Subject: [PATCH 41/51] fix: blocks and matrices of parameter files without an
 end are reported

---
 src/utils/ParaReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index e9f0bbb..d9f1a4c 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -625,7 +625,7 @@ public:
     auto end_data = block.get_query_data(block.end_key(), *content_ );
 
     if ( !end_data.found )
-      return false;
+      error("Missing \"" + block.end_key() + "\" for \"" + block.start_key() + "\".");
 
     // Set start and end of this block
     block.block_start( start_data.line_index );
@@ -746,7 +746,7 @@ private:
     auto end_data = para.get_query_data(para.end_key(), content );
 
     if ( !end_data.found )
-      return false;
+      error("Missing \"" + para.end_key() + "\" for \"" + para.start_key() + "\".");
 
     // Gather sub strings
     std::vector<string> sub_strings {};
-- 
2.43.0


From e487ad77e2f510c67c5a0b19e2336a7533ff6cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:11 +0000
Subject: [PATCH 42/51] fix: error messages name the mesh they refer to

---
 src/app/TQMeshApp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 92d76c4..ccd1086 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -862,10 +862,10 @@ private:
   void query_mandatory_parameters(ParaReader& mesh_reader)
   {
     if ( !mesh_reader.query<std::string>("output_prefix") )
-      throw_error("No output file prefix defined for mesh " + mesh_id_ );
+      throw_error("No output file prefix defined for mesh " + std::to_string(mesh_id_) );
 
     if ( !mesh_reader.query<std::string>("output_format") )
-      throw_error("No output format defined for mesh " + mesh_id_ ); 
+      throw_error("No output format defined for mesh " + std::to_string(mesh_id_) ); 
 
     output_prefix_ = mesh_reader.get_value<std::string>("output_prefix");
     output_format_ = mesh_reader.get_value<std::string>("output_format");
@@ -874,7 +874,7 @@ private:
     print_parameter<std::string>(mesh_reader, "output_format");
 
     if ( !mesh_reader.query<std::string>("size_function") )
-      throw_error("Invalid size function definition for mesh " + mesh_id_);
+      throw_error("Invalid size function definition for mesh " + std::to_string(mesh_id_));
 
   } // MeshConstruction::query_mandatory_parameters()
 
-- 
2.43.0


From f2b6b6c8f1f5aa7291623786470e80ca6c2680c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:11 +0000
Subject: [PATCH 43/51] fix: the application reports parameter files without
 any mesh definition

---
 src/app/TQMeshApp.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index ccd1086..c4df762 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -961,6 +961,12 @@ public:
       ++mesh_id;
     }
 
+    if ( mesh_id == 0 )
+    {
+      LOG(ERROR) << "No mesh definition found.";
+      return false;
+    }
+
     return success;
 
   } // TQMeshApp::run()
-- 
2.43.0


From f5fbcdde9a8348009aa03c2489142390ee91b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:42 +0000
Subject: [PATCH 44/51] fix: invalid size function expressions are reported

---
 src/app/size_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app/size_function.cpp b/src/app/size_function.cpp
index e2c8831..f128aa8 100644
--- a/src/app/size_function.cpp
+++ b/src/app/size_function.cpp
@@ -33,7 +33,9 @@ UserSizeFunction init_size_function(const std::string& expr)
   symbol_table.add_variable("x", x_size_function);
   symbol_table.add_variable("y", y_size_function);
   expression.register_symbol_table(symbol_table);
-  parser.compile(expr, expression);
+
+  if ( !parser.compile(expr, expression) )
+    throw_error("Invalid size function definition: " + expr);
 
   UserSizeFunction f = [](const Vec2d& p) 
   { 
-- 
2.43.0


From 5531efab8d8f53c9c044db6d03680251444c4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:44 +0000
Subject: [PATCH 45/51] fix: the domain extent does not always include the
 origin

---
 src/algorithm/Domain.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithm/Domain.h b/src/algorithm/Domain.h
index 6a64271..c5ff90a 100644
--- a/src/algorithm/Domain.h
+++ b/src/algorithm/Domain.h
@@ -222,6 +222,13 @@ public:
     Vec2d x_extent { 0.0, 0.0 };
     Vec2d y_extent { 0.0, 0.0 };
 
+    if ( verts_.size() > 0 )
+    {
+      const Vertex& v0 = **verts_.begin();
+      x_extent = { v0.xy().x, v0.xy().x };
+      y_extent = { v0.xy().y, v0.xy().y };
+    }
+
     for ( const auto& v : verts_ )
     {
       x_extent[0] = MIN( x_extent[0], v->x() );
-- 
2.43.0


From c7772e42722cda8e557c99be4b78048a67fa611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:47 +0000
Subject: [PATCH 46/51] fix: clean-up of double edges proceeds with the quads
 behind a merged one

---
 src/algorithm/MeshCleanup.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index d96880d..bb423c1 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -233,11 +233,9 @@ public:
 
     for ( auto& q_cur : mesh.quads() )
     {
-      if ( element_marker[i_quad] ) 
+      if ( element_marker[i_quad++] ) 
         continue;
 
-      ++i_quad;
-
       // Loop over all edges of the current quad
       for ( int i_vert = 0; i_vert < 4; ++i_vert )
       {
@@ -445,11 +443,9 @@ public:
 
     for ( auto& q_cur : mesh.quads() )
     {
-      if ( element_marker[i_quad] ) 
+      if ( element_marker[i_quad++] ) 
         continue;
 
-      ++i_quad;
-
       // Loop over all edges of the current quad
       for ( int i_vert = 0; i_vert < 4; ++i_vert )
       {
-- 
2.43.0


From ceea2a656fecccec01271770cb69302f648726b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:57 +0000
Subject: [PATCH 47/51] fix: clean-up of double edges keeps fixed vertices and
 element colors

---
 src/algorithm/MeshCleanup.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index bb423c1..2076368 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -261,6 +261,10 @@ public:
         if ( nbr_1 != nbr_2 )
           continue;
 
+        // Keep fixed vertices and do not merge different colors
+        if ( v2.is_fixed() || nbr_1->color() != q_cur->color() )
+          continue;
+
         ASSERT( nbr_1 != nullptr, 
           "MeshCleanup::clear_double_quad_edges(): "
           "First edge neighbor is nullptr.");
@@ -346,7 +350,8 @@ public:
       Vertex* o2 = opposing_vertices[i].second;
 
       // Create new quad 
-      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3 );
+      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3, 
+                                   quads_to_remove[i].first->color() );
       q_new.is_active(true);
     }
 
@@ -470,6 +475,10 @@ public:
         if ( nbr_1 != nbr_2 )
           continue;
 
+        // Keep fixed vertices and do not merge different colors
+        if ( v2.is_fixed() || nbr_1->color() != q_cur->color() )
+          continue;
+
         ASSERT( nbr_1 != nullptr, 
           "MeshCleanup::clear_double_quad_edges(): "
           "First edge neighbor is nullptr.");
@@ -536,7 +545,7 @@ public:
       Vertex& v3 = q->vertex( MOD(id_v+3, 4) );
 
       // Create new triangle 
-      Triangle& t_new = mesh.add_triangle( v1, v2, v3 );
+      Triangle& t_new = mesh.add_triangle( v1, v2, v3, q->color() );
       t_new.is_active(true);
     }
 
-- 
2.43.0


From cad17edd90873b8c6f401602a67797874660a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:00 +0000
Subject: [PATCH 48/51] fix: VecND::sum() accumulates in the entry type instead
 of int

---
 src/utils/VecND.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/VecND.h b/src/utils/VecND.h
index 3a65fb5..7b1be09 100644
--- a/src/utils/VecND.h
+++ b/src/utils/VecND.h
@@ -295,7 +295,7 @@ public:
   ------------------------------------------------------------------*/
   T sum() const
   { 
-    return std::accumulate(cbegin(), cend(), 0);
+    return std::accumulate(cbegin(), cend(), T {});
   }
 
   /*------------------------------------------------------------------
-- 
2.43.0


From f1aef34b4e4d16e1fa91a447b25eba9795a1d2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:00 +0000
Subject: [PATCH 49/51] fix: VecND compound scalar operators accept one of the
 vector's own entries

---
 src/utils/VecND.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/VecND.h b/src/utils/VecND.h
index 7b1be09..f9c8fe1 100644
--- a/src/utils/VecND.h
+++ b/src/utils/VecND.h
@@ -191,7 +191,7 @@ public:
   /*------------------------------------------------------------------
   | VecND-Scalar addition 
   ------------------------------------------------------------------*/
-  VecND<T,N> operator+=(const T &v) 
+  VecND<T,N> operator+=(T v) 
   {
     std::transform(cbegin(), cend(), begin(),
                    [&](auto const& elem) { return elem + v; });
@@ -201,7 +201,7 @@ public:
   /*------------------------------------------------------------------
   | VecND-Scalar subtraction 
   ------------------------------------------------------------------*/
-  VecND<T,N> operator-=(const T &v) 
+  VecND<T,N> operator-=(T v) 
   {
     std::transform(cbegin(), cend(), begin(),
                    [&](auto const& elem) { return elem - v; });
@@ -211,7 +211,7 @@ public:
   /*------------------------------------------------------------------
   | VecND-Scalar multiplication 
   ------------------------------------------------------------------*/
-  VecND<T,N> operator*=(const T &v) 
+  VecND<T,N> operator*=(T v) 
   {
     std::transform(cbegin(), cend(), begin(),
                    [&](auto const& elem) { return elem * v; });
@@ -221,7 +221,7 @@ public:
   /*------------------------------------------------------------------
   | VecND-Scalar division 
   ------------------------------------------------------------------*/
-  VecND<T,N> operator/=(const T &v) 
+  VecND<T,N> operator/=(T v) 
   {
     std::transform(cbegin(), cend(), begin(),
                    [&](auto const& elem) { return elem / v; });
-- 
2.43.0


From ac13f85f927d831a8915980a836227ba45757f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:00 +0000
Subject: [PATCH 50/51] fix: Matrix::swap() also exchanges the dimensions of
 the other matrix

---
 src/utils/Matrix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/Matrix.h b/src/utils/Matrix.h
index 22a1cb3..d10558d 100644
--- a/src/utils/Matrix.h
+++ b/src/utils/Matrix.h
@@ -7,6 +7,7 @@
 */
 #pragma once
 
+#include <utility>
 #include <vector>
 
 namespace CppUtils {
@@ -91,8 +92,8 @@ public:
   ------------------------------------------------------------------*/
   inline Matrix& swap(Matrix& m)
   {
-    rows_ = m.rows_;
-    cols_ = m.cols_;
+    std::swap( rows_, m.rows_ );
+    std::swap( cols_, m.cols_ );
     data_.swap( m.data_ );
     return *this;
   }
-- 
2.43.0


From 92f68aea1b91a5c6b23524948515f5d53c4c8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 51/51] fix: plot_mesh.py -c gives every element color one face
 color in all elements and meshes

---
 scripts/plot_mesh.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scripts/plot_mesh.py b/scripts/plot_mesh.py
index 0932a50..110ef2f 100644
--- a/scripts/plot_mesh.py
+++ b/scripts/plot_mesh.py
@@ -68,9 +68,7 @@ class TQMesh:
         tri_colors = np.array(self.tri_colors).astype(int)
         if n_colors > 0:
             colors = plt.cm.Set1( np.linspace(0.0,1.0,n_colors) )
-            color_map = np.zeros( tri_colors.shape ).astype(int)
-            for i, c in enumerate(np.unique(tri_colors)):
-                color_map[tri_colors == c] = i
+            color_map = np.searchsorted( element_colors, tri_colors )
             elem_colors = colors[color_map]
         else:
             elem_colors = ['None']
@@ -92,9 +90,7 @@ class TQMesh:
         quad_colors = np.array(self.quad_colors).astype(int)
         if n_colors > 0:
             colors = plt.cm.Set1( np.linspace(0.0,1.0,n_colors) )
-            color_map = np.zeros( quad_colors.shape ).astype(int)
-            for i, c in enumerate(np.unique(quad_colors)):
-                color_map[quad_colors == c] = i
+            color_map = np.searchsorted( element_colors, quad_colors )
             elem_colors = colors[color_map]
         else:
             elem_colors = ['None']
@@ -407,6 +403,7 @@ def main():
     if '-c' in sys.argv:
         for m in meshes:
             element_colors += m.get_element_colors()
+        element_colors = np.unique( element_colors ).tolist()
 
     # Create the mesh
     fig, ax = plt.subplots(1,1,dpi=200)
-- 
2.43.0

