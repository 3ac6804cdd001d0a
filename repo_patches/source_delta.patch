From 20d31c1f66e9a502741a8ed416cf0b7f45bd2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 001/113] fix: Forest.find_node returns None for an address
 below a leaf

---
 src/mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 9a4a45a..d5b42c9 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1340,6 +1340,8 @@ class Forest(object):
                     return None
                 else:
                     node = node.get_child(a)
+            else:
+                return None
         return node
 
 
-- 
2.43.0


From 7fe5c42206df6f815154d11fcaf37aee739d72a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 002/113] fix: Forest.get_children(flag, reverse=True) filters
 by the flag and returns its list

---
 src/mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index d5b42c9..1366ba0 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1390,9 +1390,10 @@ class Forest(object):
             else:
                 children = []
                 for tree in reversed(self._trees):
-                    if tree.is_marked():
+                    if tree.is_marked(flag):
                         children.append(tree)
 
+                return children
 
     def add_tree(self, tree):
         """
-- 
2.43.0


From 59fe7d242a7901b6212c7c34c2e1e50e782c6d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 003/113] fix: Tree.tree_depth passes its flag on to the
 children

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 1366ba0..a97674b 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -442,7 +442,7 @@ class Tree(object):
         depth = self.get_depth()
         if self.has_children():
             for child in self.get_children(flag=flag):
-                d = child.tree_depth()
+                d = child.tree_depth(flag=flag)
                 if d > depth:
                     depth = d
         return depth
-- 
2.43.0


From f44cfbc7c972e031035cde4fcf93a33c13694665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 004/113] fix: Forest.is_contained_in is False when the
 reference subforest is finer

---
 src/mesh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index a97674b..b27c559 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1760,7 +1760,12 @@ class Forest(object):
         # Check whether the test_flag nodes have reference_flag ancestors
         #
         for leaf in self.get_leaves(subforest_flag=test_flag):
-            if leaf.is_marked(reference_flag):
+            if leaf.has_children(flag=reference_flag):
+                #
+                # The reference subforest is finer than test_flag here
+                #
+                return False
+            elif leaf.is_marked(reference_flag):
                 # Leaf itself is marked with reference_flag
                 # continue
                 continue
-- 
2.43.0


From 965950d1bddeb8592f096bd7932407f8efeb5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 005/113] fix: coarsening a submesh removes its label from all
 descendants of the coarsened cell

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index b27c559..7cf601b 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1070,7 +1070,7 @@ class Tree(object):
                 # Remove subforest flag from children
                 #
                 for child in self.get_children():
-                    child.unmark(subforest_flag)
+                    child.unmark(subforest_flag, recursive=True)
             else:
                 #
                 # Delete children
-- 
2.43.0


From 58740e0e18cc13274f56179e44231ca48bd7a63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 006/113] fix: deleting a cell's children also removes the
 sub-edges that tie neighbors to them

---
 src/mesh.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 7cf601b..bfd0fb7 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3730,6 +3730,22 @@ class QuadCell(Cell, Tree):
                 if he_child.is_periodic() and he_child.twin() is not None:
                     he_child.pair_periodic_vertices()
 
+
+    def delete_children(self, position=None):
+        """
+        Delete all sub-cells (overwrite Tree.delete_children), together with
+        the sub-edges along the cell's boundary, so that neighboring cells do
+        not remain connected to deleted cells.
+        """
+        if position is None:
+            for half_edge in self.get_half_edges():
+                for he_child in half_edge.get_children():
+                    for sub_edge in he_child.traverse():
+                        if sub_edge.twin() is not None:
+                            sub_edge.twin().delete_twin()
+                half_edge.delete_children()
+        Tree.delete_children(self, position=position)
+
     
     def subcell_position(self, subcell):
         """
-- 
2.43.0


From 44c0772cf1fea0426943b26e54ece861b0fb9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 007/113] fix: convert_to_array turns a one-entry vector into a
 (1,1) array

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index bfd0fb7..0e816b9 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -116,7 +116,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
                 if dim is not None:
                     assert dim==1, 'Incompatible dimensions'
                 x = x[:,np.newaxis]
-            if len(x) == 2:
+            elif len(x) == 2:
                 #
                 # x is a vector 2 entries: ambiguous
                 #
-- 
2.43.0


From 44f042758d13160a3043cf8ac641eb2c08d8b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 008/113] fix: convert_to_array accepts a list of numbers, as
 documented

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 0e816b9..dd94de7 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -59,7 +59,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
             # All points are tuples
             #
             x = np.array(x)
-        elif all(type(xi) is numbers.Real for xi in x):
+        elif all(isinstance(xi, numbers.Real) for xi in x):
             #
             # List of real numbers -> turn into (n,1) array
             #
-- 
2.43.0


From be7e30e166e14b4361b0cdb5d00513afd16ef3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 009/113] fix: HalfEdge.contains_points recognises points on
 edges with negative slope

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index dd94de7..b9e9499 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2397,7 +2397,7 @@ class HalfEdge(Tree):
             # Discard points whose x-values don't lie on Edge
             in_half_edge[np.abs(p[:,0]-x0[0,0])>tol] = False
 
-        elif dim==1 or np.abs(v[1]<1e-14):
+        elif dim==1 or np.abs(v[1])<1e-14:
             #
             # Horizontal line
             #
-- 
2.43.0


From c28b264c77c33d3431850c59d3eebfefc9a80847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 010/113] fix: HalfEdge.subcell_position works on vertical
 edges

---
 src/mesh.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index b9e9499..7c4d554 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2524,17 +2524,13 @@ class HalfEdge(Tree):
             'Input "subedge" not contained within HalfEdge.'
         
         #
-        # It suffices to work with x-coordinates
+        # Project the sub-edge's base onto the reference HalfEdge
         #  
-        # Get x-coordinates of reference HalfEdge 
-        x0_ref, dummy = self.base().coordinates()
-        x1_ref, dummy = self.head().coordinates()
-        
-        # Get x-coordinates of sub-edge base  
-        x0_sub, dummy = v0.coordinates()
+        v = self.to_vector()
+        w = np.array(v0.coordinates()) - np.array(self.base().coordinates())
         
         # Compute position
-        pos = (x0_sub-x0_ref)/(x1_ref-x0_ref)
+        pos = np.dot(w,v)/np.dot(v,v)
         
         # Get relative length
         width = subedge.length()/self.length() 
-- 
2.43.0


From 8dcda5cf38e390b12515ef203d28d966c6dd53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 011/113] fix: QuadCell.is_rectangle only holds if the first
 edge is horizontal, as the reference map assumes

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 7c4d554..dce2827 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3650,7 +3650,7 @@ class QuadCell(Cell, Tree):
             for i in range(4):
                 he = half_edges[i].to_vector()
                 he_nxt = half_edges[(i+1)%4].to_vector()
-                on_axis = min(abs(he)) <1e-12
+                on_axis = abs(he[(i+1)%2]) < 1e-12
                 perpendicular = abs(np.dot(he, he_nxt)) < 1e-12
                 if  not (perpendicular and on_axis):
                     is_rectangle = False
-- 
2.43.0


From d248e0dae0a0ff89b950a7a03be0b749ac6b1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 012/113] fix: QuadCell.subcell_position of the cell itself

---
 src/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index dce2827..5ccc3dc 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3796,7 +3796,7 @@ class QuadCell(Cell, Tree):
                 'Input "subcell" not contained in cell.'
                 
             # Extract address of subcell, relative to current cell
-            rel_address = sub_address[i+1:]
+            rel_address = sub_address[len(own_address):]
         
         #
         # Determine relative position
@@ -3808,7 +3808,7 @@ class QuadCell(Cell, Tree):
                 rel_position += 2**(-(level+1))*sign[i]
         
         # Compute the width of the reference cell
-        width = 2**(-(level+1))
+        width = 2**(-len(rel_address))
         
         # Return result
         return rel_position, width
-- 
2.43.0


From 9f58c8741992b458029ea245c4cfdf07e38680f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 013/113] fix: Mesh2D.locate_point returns the smallest
 (flagged) cell, as documented

---
 src/mesh.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 5ccc3dc..023bb1b 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7158,13 +7158,20 @@ class Mesh2D(Mesh):
             cell: smallest cell that contains x
 
         """
-        for cell in self.cells.get_children():
-            if flag is None:
-                if cell.contains_points(point):
-                    return cell
-            else:
-                if cell.is_marked(flag) and cell.contains_points(point):
-                    return cell
+        for cell in self.cells.get_children(flag=flag):
+            if cell.contains_points(point):
+                #
+                # Move down to the smallest (flagged) subcell
+                #
+                subcell = cell
+                while subcell is not None:
+                    cell = subcell
+                    subcell = None
+                    for child in cell.get_children(flag=flag):
+                        if child.contains_points(point):
+                            subcell = child
+                            break
+                return cell
 
 
     def get_boundary_segments(self, subforest_flag=None, flag=None):
-- 
2.43.0


From 0228b3af7acb3449042c409c5e4ec34e9e76a0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 014/113] fix: Cell.get_neighbors about an interior vertex
 respects the flag

---
 src/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 023bb1b..8bef415 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3506,6 +3506,8 @@ class Cell(Tree):
                     #
                     # Full rotation or no neighbors
                     #
+                    if flag is not None:
+                        return [nb for nb in neighbors if nb.is_marked(flag)]
                     return neighbors
                 else:
                     #
@@ -3535,6 +3537,8 @@ class Cell(Tree):
                     #
                     # Full rotation or no neighbors
                     #
+                    if flag is not None:
+                        return [nb for nb in neighbors if nb.is_marked(flag)]
                     return neighbors
                 else:
                     #
-- 
2.43.0


From 86da3772837fa3720dcbdb31a18033e270ebb7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 015/113] fix: Cell.get_neighbors starts its clockwise pass
 from its own (periodic) vertex

---
 src/mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 8bef415..14d7332 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3489,6 +3489,7 @@ class Cell(Tree):
             #
             # Anti-clockwise
             #
+            own_pivot = pivot
             neighbors = []
             cell = self
             while True:
@@ -3522,6 +3523,7 @@ class Cell(Tree):
             #
             neighbors_clockwise = []
             cell = self
+            pivot = own_pivot
             while True:
                 #
                 # Get neighbor
-- 
2.43.0


From e9588293a98cfa02d405e2b4e2174f1f751e9592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 016/113] fix: periodic vertex pairs are found from refined
 cells too

---
 src/mesh.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 14d7332..f1fed6c 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1994,6 +1994,14 @@ class Vertex(object):
             # Return all paired vertices within a given cell
             #
             vertices = [v for c, v in self.__periodic_pair if c==cell]
+            if len(vertices)==0:
+                #
+                # Pairs are stored with the coarsest cell that has the vertex
+                #
+                corners = cell.get_vertices()
+                for c, v in self.__periodic_pair:
+                    if v in corners and c.contains(cell) and v not in vertices:
+                        vertices.append(v)
             return vertices
 
 
-- 
2.43.0


From 458e90475d589afd87e32ec830e3050a87cda7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 017/113] fix: get_boundary_segments keeps closed boundary
 loops and merges all pieces

---
 src/mesh.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index f1fed6c..c033caa 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7229,24 +7229,32 @@ class Mesh2D(Mesh):
                 #
                 # Check if g1 can add a deque in bnd_hes_sorted
                 #
-                merger_activity = False
-                for g2 in bnd_hes_sorted:
+                for i_g2, g2 in enumerate(bnd_hes_sorted):
+                    if g2 is g1:
+                        #
+                        # Closed loop: nothing to merge
+                        #
+                        continue
                     #
                     # Does g1's head align with g2's tail?
                     #
                     if g1[-1].head()==g2[0].base():
                         # Remove g2 from list
-                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
+                        del bnd_hes_sorted[i_g2]
                         g1.extend(g2)
                         merger_activity = True
+                        break
                     #
                     # Does g1's tail align with g2's head?
                     #
                     elif g1[0].base()==g2[-1].head():
-                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
+                        del bnd_hes_sorted[i_g2]
                         g2.reverse()
                         g1.extendleft(g2)
                         merger_activity = True
+                        break
+                if merger_activity:
+                    break
 
             if not merger_activity or len(bnd_hes_sorted)==1:
                 break
-- 
2.43.0


From d3718ce69d158d6b83ba52ae53483f39b7f2b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 018/113] fix: get_boundary_segments removes all half-edges
 that are not flagged

---
 src/mesh.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index c033caa..1781428 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7292,12 +7292,7 @@ class Mesh2D(Mesh):
             # Throw out he's that are not flagged
             #
             if flag is not None:
-                for he, i_he in zip(segment, range(len(segment))):
-                    if not he.is_marked(flag):
-                        #
-                        # Not flagged: remove from list
-                        #
-                        del segment[i_he]
+                segment[:] = [he for he in segment if he.is_marked(flag)]
 
         return bnd
 
-- 
2.43.0


From 49c93ddd0c0f81ed8e3fc506f762da49785df6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 019/113] fix: get_boundary_vertices includes the last vertex
 of open or filtered segments

---
 src/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 1781428..ab2eea0 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7305,7 +7305,9 @@ class Mesh2D(Mesh):
         for segment in self.get_boundary_segments(subforest_flag=subforest_flag,
                                                   flag=flag):
             for he in segment:
-                vertices.append(he.base())
+                for v in he.get_vertices():
+                    if v not in vertices:
+                        vertices.append(v)
         return vertices
 
 
-- 
2.43.0


From 3e9f95d633d017b0a4d272c125bc1c094a2da99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 020/113] fix: boundary regions of periodic 1D meshes are empty
 instead of crashing

---
 src/mesh.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index ab2eea0..bb7d36a 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6835,6 +6835,10 @@ class Mesh1D(Mesh):
             #
             # Entity adjacent to boundary
             #
+            if self.is_periodic():
+                # Periodic mesh: no boundary
+                return
+
             if entity_type=='vertex':
                 #
                 # Vertices
@@ -6965,6 +6969,10 @@ class Mesh1D(Mesh):
             #
             # Restrict region to boundary
             #
+            if self.is_periodic():
+                # Periodic mesh: no boundary
+                return []
+
             cells = self.get_boundary_cells(subforest_flag=subforest_flag)
             bnd_vertices = self.get_boundary_vertices()
         else:
-- 
2.43.0


From a33062cc6b68221045a5fa7f3e4ffab6dc4caca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 021/113] fix: DCEL.get_neighbor returns None across a boundary
 half-edge

---
 src/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index bb7d36a..472feb6 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6305,6 +6305,9 @@ class DCEL(object):
                 'Cell not incident to Half-Edge.'
 
             i_nbr_he = self.half_edges['twin'][i_direction]
+            if i_nbr_he == -1:
+                # Boundary half-edge: no neighbor
+                return None
             i_nbr = self.half_edges['face'][i_nbr_he]
 
         if i_nbr != -1:
-- 
2.43.0


From 4ce6dae7b254e5b6dd177ab5076cc8cacc73bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 022/113] fix: DCEL.get_boundary_half_edges keeps closed loops
 and the order of merged pieces

---
 src/mesh.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 472feb6..1a46415 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6336,32 +6336,38 @@ class DCEL(object):
         #
         bnd_hes_sorted = [deque([he]) for he in bnd_hes]
 
+        conn = self.half_edges['connectivity']
         while True:
+            merger_activity = False
             for g1 in bnd_hes_sorted:
                 #
                 # Check if g1 can add a deque in bnd_hes_sorted
                 #
-                merger_activity = False
-                for g2 in bnd_hes_sorted:
+                for i_g2, g2 in enumerate(bnd_hes_sorted):
+                    if g2 is g1:
+                        #
+                        # Closed loop: nothing to merge
+                        #
+                        continue
                     #
                     # Does g1's head align with g2's tail?
                     #
-                    if self.half_edges['connectivity'][g1[-1]][1]==\
-                       self.half_edges['connectivity'][g2[0]][0]:
+                    if conn[g1[-1]][1]==conn[g2[0]][0]:
                         # Remove g2 from list
-                        if len(bnd_hes_sorted) > 1:
-                            g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                            g1.extend(g2)
-                            merger_activity = True
+                        del bnd_hes_sorted[i_g2]
+                        g1.extend(g2)
+                        merger_activity = True
+                        break
                     #
                     # Does g1's tail align with g2's head?
                     #
-                    elif self.half_edges['connectivity'][g1[0]][0]==\
-                         self.half_edges['connectivity'][g2[-1]][1]:
-                        if len(bnd_hes_sorted) > 1:
-                            g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                            g1.extendleft(g2)
-                            merger_activity = True
+                    elif conn[g1[0]][0]==conn[g2[-1]][1]:
+                        del bnd_hes_sorted[i_g2]
+                        g1.extendleft(reversed(g2))
+                        merger_activity = True
+                        break
+                if merger_activity:
+                    break
             if not merger_activity:
                 break
         #
-- 
2.43.0


From ce281991511f59807503e1b66f20a85b1b86657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 023/113] fix: DCEL.get_boundary_points goes through the
 half-edges of all boundary segments

---
 src/mesh.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 1a46415..0bea31c 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6452,11 +6452,12 @@ class DCEL(object):
             # Two dimensional grid
             #
             bnd_points = []
-            for i_he in self.get_boundary_half_edges():
-                #
-                # Add initial point of each boundary half edge
-                #
-                bnd_points.append(self.half_edges['connectivity'][i_he][0])
+            for segment in self.get_boundary_half_edges():
+                for i_he in segment:
+                    #
+                    # Add initial point of each boundary half edge
+                    #
+                    bnd_points.append(self.half_edges['connectivity'][i_he][0])
         else:
             raise Exception('Only dimensions 1 and 2 supported.')
         return bnd_points
-- 
2.43.0


From 809b895dc267d56ed7764ed4b095fb4a71d8a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 024/113] fix: derivatives of 1D shape functions on the
 reference cell at several points

---
 src/fem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index de5f18a..34a6312 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -605,7 +605,7 @@ class QuadFE(Element):
                                 p[:,i] = dN_ds*ds_dxy + dN_dt*dt_dxy
                 else:
                     for i in range(n_dofs_loc):
-                        p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var)
+                        p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var).ravel()
 
             elif der[0]==2:
                 #
@@ -669,7 +669,7 @@ class QuadFE(Element):
                     # No mapping
                     #
                     for i in range(n_dofs_loc):
-                        p[:,i] = self.d2phi(local_dofs[i], x_ref, der[1:])
+                        p[:,i] = self.d2phi(local_dofs[i], x_ref, der[1:]).ravel()
             phi.append(p)
 
         if is_singleton:
-- 
2.43.0


From 3f8e6d3e59485ccfcfef7650c5610de8cc393557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 025/113] fix: get_region_dofs returns its dofs in ascending
 order, as documented

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 34a6312..85c6edf 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2181,7 +2181,7 @@ class DofHandler(object):
             new_dofs = self.get_cell_dofs(cell, entity, interior=interior)
                                           
             dofs = dofs.union(new_dofs)
-        return list(dofs)
+        return sorted(dofs)
 
 
     def set_dof_vertices(self, subforest_flag=None):
-- 
2.43.0


From a4bbdcedfda2244a599d147794e0d3b105eebe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 026/113] fix: dof vertices are recorded for dofs of submeshes
 distributed later

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 85c6edf..b876804 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2189,7 +2189,7 @@ class DofHandler(object):
         Construct a list of all vertices in the mesh
         """
         # Check if dof_vertices already set
-        if len(self.__dof_vertices) >= self.n_dofs(subforest_flag=subforest_flag):
+        if len(self.__dof_vertices) >= self.n_dofs(all_dofs=True):
             return
 
         # Reference nodes
-- 
2.43.0


From c924f590001623f119de931fc637b2b3ec217796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 027/113] fix: get_hanging_nodes is empty for elements and
 meshes without hanging nodes

---
 src/fem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index b876804..52ddf55 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2583,7 +2583,7 @@ class DofHandler(object):
                 # Set hanging nodes first
                 #
                 self.set_hanging_nodes()
-            return self.__hanging_nodes['default']
+            return self.__hanging_nodes.get('default', {})
         else:
             #
             # With Subforest flag
@@ -2593,7 +2593,7 @@ class DofHandler(object):
                 # Set hanging nodes first
                 #
                 self.set_hanging_nodes(subforest_flag=subforest_flag)
-            return self.__hanging_nodes[subforest_flag]
+            return self.__hanging_nodes.get(subforest_flag, {})
 
 
     def has_hanging_nodes(self, subforest_flag=None):
-- 
2.43.0


From 647d1dba8510c19531e54a64b0d70ac920dcc09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 028/113] fix: Basis.eval maps points to the ancestor cell and
 transforms derivatives

---
 src/fem.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 52ddf55..f8e3e19 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1161,17 +1161,38 @@ class Basis():
         e_cell = cell.nearest_ancestor(subforest_flag)
 
         #
-        # Map points to reference if necessary
+        # Map points to the reference element of the nearest ancestor
         # 
-        if location=='physical':
+        if location=='reference' and e_cell!=cell:
             #
-            # Points lie in physical cell -> first map them to the reference
+            # Points on the reference cell of a sub-cell -> physical points
             # 
             x = cell.reference_map(x)
+            location = 'physical'
+        if location=='physical':
+            #
+            # Physical points -> reference cell of nearest ancestor
+            # 
+            x = e_cell.reference_map(x, mapsto='reference')
+            
+            # Points on the cell's boundary may be off by a rounding error
+            x = convert_to_array(x, element.dim())
+            x[np.logical_and(x<0,x>-1e-8)] = 0
+            x[np.logical_and(x>1,x<1+1e-8)] = 1
+        #
+        # Jacobians/Hessians of the inverse mapping (needed for derivatives)
+        #
+        order = self.derivative()[0]
+        jac, hess = None, None
+        if order > 0:
+            _, mg = e_cell.reference_map(x, jac_p2r=True, hess_p2r=(order==2))
+            jac = mg['jac_p2r']
+            hess = mg['hess_p2r'] if order==2 else None
         #
         # Evaluate the Basis function at the given reference points
         #
-        phi = element.shape(x, derivatives=self.derivative(), cell=e_cell)
+        phi = element.shape(x, derivatives=self.derivative(), cell=e_cell,
+                            jac_p2r=jac, hess_p2r=hess)
         return phi
 
 
-- 
2.43.0


From 706e0cd3e32396b0da6e08657510adf5e5460fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 029/113] fix: nodes and weights of the six-point Gauss rule to
 full precision

---
 src/assembler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 5d912a7..f29305c 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -119,16 +119,16 @@ class GaussRule():
                 w[4] = w[0]
             elif order_1d == 6:
                 # Nodes
-                r[0] = -0.2386191861
-                r[1] = -0.6612093865
-                r[2] = -0.9324695142
+                r[0] = -0.2386191860831969
+                r[1] = -0.6612093864662645
+                r[2] = -0.9324695142031521
                 r[3] = - r[0]
                 r[4] = - r[1]
                 r[5] = - r[2]
                 # Weights
-                w[0] = .4679139346
-                w[1] = .3607615730
-                w[2] = .1713244924
+                w[0] = 0.4679139345726910
+                w[1] = 0.3607615730481386
+                w[2] = 0.1713244923791704
                 w[3] = w[0]
                 w[4] = w[1]
                 w[5] = w[2]
-- 
2.43.0


From 5bc38ac530c7cb9c2db86353253b8f0607b68419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 030/113] fix: Gauss rules on triangles can be constructed,
 one-point rule uses the centroid

---
 src/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index f29305c..1fa3e22 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -155,7 +155,7 @@ class GaussRule():
                 self.__nodes = np.array(nodes)
                 self.__weights = np.array(weights)
 
-        elif element.cell_type == 'triangle':
+        elif shape == 'triangle':
             #
             # Two dimensional rules over triangles
             #
@@ -164,7 +164,7 @@ class GaussRule():
                 #
                 # One point rule
                 #
-                r = [(2.0/3.0,1.0/3.0)]
+                r = [(1.0/3.0,1.0/3.0)]
                 w = [0.5]
             elif order == 3:
                 #
-- 
2.43.0


From 8df1eefda743ab9698618322e11774b9f05c8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 031/113] fix: GaussRule.scale_rule works on quadrilaterals

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 1fa3e22..5a042a6 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -395,7 +395,7 @@ class GaussRule():
                 assert position.shape == (1,2), \
                     'Position must have dimensions (1,2).'
                     
-                assert np.dim(scale)==0, \
+                assert np.ndim(scale)==0, \
                     'Input "scalar" should have dimension 0.'
                 
                 # Scale the weights 
-- 
2.43.0


From 8e1a07c2c133db9c1db88a488ae34c44da082557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 032/113] fix: Explicit.set_rules accepts a position

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index cc847c9..7c622fc 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1446,7 +1446,7 @@ class Explicit(Map):
             assert callable(f), 'Input "f" should be callable.'
             assert type(parameters) is dict, \
             'Input "parameters" should be a dict.'
-            assert self.n_sample()>pos, \
+            assert self.n_samples()>pos, \
             'Input "pos" incompatible with sample size.'
             self.__f[pos] = f
             self.__parameters[pos] = parameters
-- 
2.43.0


From 1f997dc76a8f9270a88c5d4dc1e096e7dff2c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 033/113] fix: bivariate nodal functions store f(x_i,x_j) in
 entry (i,j)

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index 7c622fc..663caab 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1695,7 +1695,7 @@ class Nodal(Map):
                 #
                 # Bivariate function
                 # 
-                cols, rows = np.mgrid[0:n_dofs,0:n_dofs]
+                rows, cols = np.mgrid[0:n_dofs,0:n_dofs]
                 x1,x2 = x[rows.ravel(),:], x[cols.ravel(),:]
                 
                 n_samples = fn.n_samples()                
-- 
2.43.0


From 808e6c7b46855242798809fc8b5fcb33a3dd723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 034/113] fix: Nodal.modify_data defaults to the dofs of the
 function's submesh

---
 src/function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/function.py b/src/function.py
index 663caab..d3f0900 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1737,6 +1737,10 @@ class Nodal(Map):
             # Turn into 1d array
             data = data.ravel()
             
+        if dofs is None:
+            # Default: all dofs of the basis
+            dofs = self.basis().dofs()
+            
         idx = self.basis().d2i(dofs)
         self.__data[idx,i_sample] = data
 
-- 
2.43.0


From 940b4b119bb62c9ba41f4b16a8cb737f0b975767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 035/113] fix: shape functions can be evaluated at mapped
 points on the boundary of a cell

---
 src/fem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index f8e3e19..e148159 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -521,10 +521,12 @@ class QuadFE(Element):
             is_singleton = False
 
         #
-        # Points should lie in the reference domain
+        # Points should lie in the reference domain (up to the rounding errors
+        # made when mapping points on the boundary of a cell)
         #
-        assert all(x_ref.ravel() >= 0), 'All entries should be nonnegative.'
-        assert all(x_ref.ravel() <= 1), 'All entries should be at most 1.'
+        tol = 1e-6
+        assert all(x_ref.ravel() >= -tol), 'All entries should be nonnegative.'
+        assert all(x_ref.ravel() <= 1+tol), 'All entries should be at most 1.'
 
         if cell is not None:
             #
-- 
2.43.0


From db43cd80b2034cac889823460187e39c1071d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 036/113] fix: Nodal.differentiate works on submeshes and with
 derivatives that jump between cells

---
 src/function.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/function.py b/src/function.py
index d3f0900..7a05baa 100644
--- a/src/function.py
+++ b/src/function.py
@@ -2340,10 +2340,14 @@ class Nodal(Map):
             df^p/dx^qdy^{p-q}: Function, derivative of current function on the
                 same mesh/element.
         """
+        assert self.n_variables()==1, \
+        'Only functions with 1 input variable can be differentiated.'
+        
         sf = self.subforest_flag()
         dim = self.dim()  
-        basis = self.basis() 
-        mesh, element = basis.dofhandler().mesh, basis.dofhandler().element
+        dh = self.basis().dofhandler()
+        mesh, element = dh.mesh, dh.element
+        derivative = parse_derivative_info(derivative)
         
         #
         # Tear element if necessary 
@@ -2351,28 +2355,32 @@ class Nodal(Map):
         etype = element.element_type()
         if etype[0] == 'Q':
             etype = 'D' + etype
-        element = QuadFE(dim, etype)
+        torn_element = QuadFE(dim, etype)
         
         #
         # Define new dofhandler
         # 
-        dofhandler = DofHandler(mesh, element)
-        dofhandler.distribute_dofs()
-        basis = Basis(dofhandler)
+        dofhandler = DofHandler(mesh, torn_element)
+        dofhandler.distribute_dofs(subforest_flag=sf)
+        basis = Basis(dofhandler, subforest_flag=sf)
         
         #
-        # Determine dof vertices
+        # Evaluate the derivative at each cell's own dof vertices (it may jump
+        # between cells)
         #
-        dofs = dofhandler.get_region_dofs(subforest_flag=sf)
-        x = dofhandler.get_dof_vertices(dofs)       
-        #
-        # Evaluate function at dof vertices
-        #
-        fv = self.eval(x, derivative=derivative)
+        fv = np.zeros((basis.n_dofs(), self.n_samples()))
+        x_ref = torn_element.reference_nodes()
+        for cell in mesh.cells.get_leaves(subforest_flag=sf):
+            _, mg = cell.reference_map(x_ref, jac_p2r=True, hess_p2r=True)
+            phi = element.shape(x_ref, cell=cell, derivatives=derivative,
+                                jac_p2r=mg['jac_p2r'], 
+                                hess_p2r=mg['hess_p2r'])
+            idx = basis.d2i(dofhandler.get_cell_dofs(cell))
+            fv[idx,:] = self.eval(phi=phi, dofs=[dh.get_cell_dofs(cell)])
         #
         # Define new function
         #
-        return Nodal(data=fv, basis=basis, subforest_flag=sf) 
+        return Nodal(data=fv, basis=basis) 
     
     
 class Constant(Map):
-- 
2.43.0


From d23fe1af4b35bd1192b546f7ccfe067d09478a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 037/113] fix: kernels evaluate derivatives of nodal functions
 during assembly

---
 src/assembler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 5a042a6..b2dd6a1 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -954,8 +954,15 @@ class Kernel(object):
         n_samples = self.n_samples()
         for f, dfdx in zip(self.__f, self.__dfdx):
             if isinstance(f, Nodal):
-                phi_f = phi if phi is None else phi[f.basis()]
-                dof_f = None if dofs is None else dofs[f.basis()]
+                if dfdx is not None and parse_derivative_info(dfdx)[0] > 0:
+                    #
+                    # The given shape functions represent the function itself,
+                    # not its derivatives
+                    #
+                    phi_f, dof_f = None, None
+                else:
+                    phi_f = phi if phi is None else phi[f.basis()]
+                    dof_f = None if dofs is None else dofs[f.basis()]
                 if dof_f is None or phi_f is None:
                     fv = f.eval(x=x, derivative=dfdx, cell=cell)
                 else:
-- 
2.43.0


From ac626afe7f6442eff5735b74d24a5d8379bd365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 038/113] fix: assembler evaluates shape functions of coarser
 submeshes at points in the finer cell

---
 src/assembler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index b2dd6a1..deda47a 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3531,6 +3531,13 @@ class Assembler(object):
                     #
                     element = basis.dofhandler().element
                     D = basis.derivative()
+                    if cell.nearest_ancestor(basis.subforest_flag())!=cell:
+                        #
+                        # Basis functions are defined on a coarser cell
+                        #
+                        phi[region][basis] = \
+                            basis.eval(xg[region], cell, location='physical')
+                        continue
                     jac_p2r = mg['jac_p2r'] if D[0] in [1,2] else None
                     hess_p2r = mg['hess_p2r'] if D[0]==2 else None
 
-- 
2.43.0


From 12a4934d4fed963137800f177c90a541760e59c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 039/113] fix: constant forms are zero on cells without
 integration region

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index deda47a..3fa044a 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1373,7 +1373,7 @@ class Form(object):
                     #
                     # Sampled form
                     #
-                    f_loc = np.zeros(n_samples)
+                    f_loc = np.zeros((1,n_samples))
             elif self.type=='linear':
                 #
                 # Linear form
-- 
2.43.0


From d93bebdac7a77da4b0154913e954e2535e9aee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 040/113] fix: deterministic constant and linear forms can be
 added to sampled ones

---
 src/assembler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index 3fa044a..b30c4a7 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4073,6 +4073,11 @@ class AssembledForm(object):
             #
             data[cell] = {'dofs': [[] for i in range(dim)],
                           'vals': []}
+        if dim < 2 and n_samples > 1 and vals.shape[-1]==1:
+            #
+            # Deterministic form in a sampled problem: copy it
+            #
+            vals = np.tile(vals, (1,n_samples))
         #
         # Postprocess dofs and vals for multilinear forms
         #
-- 
2.43.0


From effe77fb267a9e5fba755f7894e03180aeba315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 041/113] fix: assembled rows and columns are ordered by dof

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index b30c4a7..1521b7c 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4369,7 +4369,7 @@ class AssembledForm(object):
             #
             # Get unique dofs from data
             #
-            udofs.append(list(set(dofs[i])))
+            udofs.append(sorted(set(dofs[i])))
 
             #
             # Number of index vectors
-- 
2.43.0


From a7b2e8f2e04380c6d098411290a2e4b7c5fdb172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 042/113] fix: Dirichlet correction is zero for problems
 without Dirichlet columns

---
 src/assembler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index 1521b7c..9e3459f 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4440,6 +4440,8 @@ class AssembledForm(object):
                 # Form
                 if len(x0_dofs)>0:
                     x0.append(np.bincount(x0_dofs, x0_vals[:,i],n_rows))
+                else:
+                    x0.append(np.zeros(n_rows))
 
             # Store result
             self.__aggregate_data['array'] = A
-- 
2.43.0


From 280ec083d5e0c9eef99964d7fe66d33715c6e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 043/113] fix: distributing cellwise data leaves it in place

---
 src/assembler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 9e3459f..7142d33 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4213,7 +4213,10 @@ class AssembledForm(object):
         if clear_cellwise_data:
             cell_data = self.__cellwise_data[cell]
         else:
-            cell_data = self.__cellwise_data[cell].copy()
+            # Copy lists, since they are emptied in the process
+            cell_data = self.__cellwise_data[cell]
+            cell_data = {'dofs': [list(dofs) for dofs in cell_data['dofs']],
+                         'vals': list(cell_data['vals'])}
 
         # Aggregate data
         data = self.__aggregate_data
-- 
2.43.0


From 3a2485f7857ab3b9cd63a6603a743bc08ec15dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 044/113] fix: Assembler.n_samples allows deterministic forms
 before sampled ones

---
 src/assembler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 7142d33..4b36b52 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3135,7 +3135,12 @@ class Assembler(object):
                         #
                         # There exists a nontrivial sample size
                         #
-                        if n_kernel_sample > 1:
+                        if n_samples == 1:
+                            #
+                            # Only deterministic forms so far
+                            #
+                            n_samples = n_kernel_sample
+                        elif n_kernel_sample > 1:
                             #
                             # Kernel contains more than one sample.
                             # Check for consistency
-- 
2.43.0


From 272434c467f72c0adee142f7ff33ceab6d1c23e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 045/113] fix: assembling a second time replaces the results of
 the first

---
 src/assembler.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index 4b36b52..601591d 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2366,6 +2366,12 @@ class Assembler(object):
         #
         # Assemble forms over mesh cells
         #
+        # Discard the results of previous assemblies
+        for i_problem in range(self.n_problems()):
+            for aform in self.assembled_forms(i_problem):
+                if aform is not None:
+                    aform.clear_data()
+
         sf = self.subforest_flag()
         cells = self.mesh().cells.get_leaves(subforest_flag=sf, flag=region_flag)
         for ci in cells:
@@ -4316,6 +4322,19 @@ class AssembledForm(object):
             self.clear_cellwise_data(cell)
 
 
+    def clear_data(self):
+        """
+        Remove all (cellwise and aggregate) data from a previous assembly
+        """
+        self.__cellwise_data = {}
+        self.__aggregate_data = {'dofs':[[] for dummy in range(self.dim())],
+                                 'udofs': [],
+                                 'vals': [],
+                                 'array': None}
+        if self.dim() == 2:
+            self.__bnd = {'dofs': [], 'vals': []}
+
+
     def clear_cellwise_data(self, cell):
         """
         Remove dof-val data stored at cellwise level
-- 
2.43.0


From 4439f43e9c550d8b8d2b3ce1015e8a3394d18daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 046/113] fix: constant forms can be evaluated at vertices

---
 src/assembler.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 601591d..dc79381 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3511,19 +3511,21 @@ class Assembler(object):
                 #
                 # Determine reference vertex corresponding to Vertex region
                 #
-                basis = list(shape_info[region])[0]
-                ref_cell = basis.dofhandler().element.reference_cell()
-
-                # Determine equivalent Vertex on reference element
-                i_v = cell.get_vertices().index(region)
-                v = ref_cell.get_vertex(i_v)
-                x_ref = convert_to_array(v, dim=v.dim())
-
-                # Map to physical
-                xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
-                                                    jac_p2r=jac_p2r,
-                                                    hess_p2r=hess_p2r)
-                wg[region] = 1
+                if len(shape_info[region])>0:
+                    # There are shape functions associated with region
+
+                    basis = list(shape_info[region])[0]
+                    ref_cell = basis.dofhandler().element.reference_cell()
+
+                    # Determine equivalent Vertex on reference element
+                    i_v = cell.get_vertices().index(region)
+                    v = ref_cell.get_vertex(i_v)
+                    x_ref = convert_to_array(v, dim=v.dim())
+
+                    # Map to physical
+                    xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
+                                                        jac_p2r=jac_p2r,
+                                                        hess_p2r=hess_p2r)
             else:
                 raise Exception('Only Intervals, HalfEdges, Vertices & '+\
                                 'QuadCells supported')
-- 
2.43.0


From 61dcb7eafe6c7486f02cc6212348496241975897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 047/113] fix: IIForm interpolates at the dofs of the test
 function's submesh

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index dc79381..89df611 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1538,7 +1538,7 @@ class IIForm(Form):
         # Interpolate in the test function component
         # =====================================================================
         test = self.test
-        x = test.dofhandler().get_dof_vertices(test.subforest_flag())
+        x = test.dofhandler().get_dof_vertices(subforest_flag=test.subforest_flag())
         n = x.shape[0]
 
         # =====================================================================
-- 
2.43.0


From 89412e4cbb9094275c0f3f265cd9888a0bf3d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 048/113] fix: IIForm integrates over all (or none) of a cell's
 regions, for every sample

---
 src/assembler.py | 48 ++++++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 89df611..145344f 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1549,7 +1549,10 @@ class IIForm(Form):
         # Number of dofs
         n_dofs = trial.dofhandler().element.n_dofs()
 
-        f_loc = None
+        # Number of samples
+        n_samples = self.kernel.n_samples()
+
+        f_loc = np.zeros((n,n_dofs,n_samples))
         for reg in self.regions(cell):
             # Get trial functions evaluated at Gauss nodes
             phi_g = phi[reg][trial]
@@ -1557,39 +1560,24 @@ class IIForm(Form):
             w_g = wg[reg]
 
             #
-            # Initialize local matrix if necessary
+            # Evaluate covariance function at the local Gauss points
             #
-            if f_loc is None:
-                #
-                # Initialize form
-                #
-                f_loc = np.zeros((n,n_dofs))
+            n_gauss = x_g.shape[0]
+            ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
+            xx = (x[ii.ravel(),:],x_g[jj.ravel(),:])
 
-                #
-                # Evaluate covariance function at the local Gauss points
-                #
-                n_gauss = x_g.shape[0]
-                ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
-                x = (x[ii.ravel(),:],x_g[jj.ravel(),:])
-                """
-                if self.dim == 1:
-                    x1, x2 = x[ii.ravel()], x_g[jj.ravel()]
-                elif self.dim == 2:
-
-                """
+            C_loc = self.kernel.eval(xx, region=reg, cell=cell,
+                                     phi=phi[reg], dofs=dofs[reg])
+            C_loc = C_loc.reshape(n,n_gauss,n_samples)
 
-                C_loc = self.kernel.eval(x, region=reg, cell=cell,
-                                         phi=phi[reg], dofs=dofs[reg])
-                C_loc = C_loc.reshape(n,n_gauss)
-
-                #
-                # Compute local integral
-                #
-                # Weight shape functions
-                Wphi = np.diag(w_g).dot(phi_g)
+            #
+            # Compute local integral
+            #
+            # Weight shape functions
+            Wphi = (w_g*phi_g.T).T
 
-                # Combine
-                f_loc += C_loc.dot(Wphi)
+            # Combine
+            f_loc += np.einsum('igs,gj->ijs', C_loc, Wphi)
         return f_loc
 
 
-- 
2.43.0


From 89e35a173828fc0f1ef18ff33f55a711c2d4be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 049/113] fix: IPForm accepts a function as its kernel

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 145344f..22fcad1 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1626,7 +1626,7 @@ class IPForm(Form):
         assert trial is not None and test is not None,\
         'Integral forms have both test and trial functions'
 
-        for f in kernel.f():
+        for f in self.kernel.f():
             assert f.n_variables()==2, 'Integral kernel must be bivariate.'
 
 
-- 
2.43.0


From 45802eaddfc3319741ee43d563c4aab72267bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 050/113] fix: IPForm integrates over all (or none) of a cell's
 regions, for every sample

---
 src/assembler.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 22fcad1..25a0657 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1669,7 +1669,7 @@ class IPForm(Form):
         # Sample size
         n_samples = self.kernel.n_samples()
 
-        f_loc = None
+        f_loc = np.zeros((n_dofsi,n_dofsj,n_samples))
         for regi in self.regions(ci):
             for regj in self.regions(cj):
                 # Access test(i) and trial(j) functions
@@ -1688,17 +1688,6 @@ class IPForm(Form):
                 dofi = dofs[0][regi]
                 dofj = dofs[1][regj]
 
-                #
-                # Initialize local matrix if necessary
-                #
-                if f_loc is None:
-                    #
-                    # Initialize form
-                    #
-                    if n_samples==1:
-                        f_loc = np.zeros((n_dofsi,n_dofsj))
-                    else:
-                        f_loc = np.zeros((n_dofsi,n_dofsj,n_samples))
                 #
                 # Evaluate kernel function at the local Gauss points
                 #
@@ -1717,17 +1706,18 @@ class IPForm(Form):
                 C_loc = self.kernel.eval(x, cell=(ci,cj), region=(regi, regj),
                                          phi=(phi[0][regi],phi[1][regj]),
                                          dofs=(dofi,dofj))
-                C_loc = C_loc.reshape(n_gauss,n_gauss)
+                C_loc = C_loc.reshape(n_gauss,n_gauss,n_samples)
 
                 #
                 # Compute local integral
                 #
                 # Weight shape functions
-                Wphii = np.diag(wi_g).dot(phii)
-                Wphij = np.diag(wj_g).dot(phij)
+                Wphii = (wi_g*phii.T).T
+                Wphij = (wj_g*phij.T).T
 
                 # Combine
-                f_loc += np.dot(Wphii.T, C_loc.dot(Wphij))
+                f_loc += np.einsum('gi,ghs,hj->ijs', Wphii, C_loc, Wphij,
+                                   optimize=True)
 
         # Return local form
         return f_loc
@@ -2469,7 +2459,7 @@ class Assembler(object):
                                     #
                                     # Symmetric kernel, store the transpose
                                     #
-                                    aform.update_cellwise(ci, form_loc.T,
+                                    aform.update_cellwise(ci, form_loc.transpose((1,0,2)),
                                                           dofs = [dofs_trl, dofs_tst])
                                 else:
                                     #
-- 
2.43.0


From 50bde985028382f014864e2e450976c41a4074de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 051/113] fix: IPForm uses the symmetry of its kernel only if
 trial and test functions agree

---
 src/assembler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 25a0657..e2ae753 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1630,6 +1630,16 @@ class IPForm(Form):
             assert f.n_variables()==2, 'Integral kernel must be bivariate.'
 
 
+    def is_symmetric(self):
+        """
+        Returns True if the form is symmetric, i.e. if its kernel is symmetric
+        and its trial and test functions are the same.
+        """
+        return self.kernel.is_symmetric() and \
+            self.test.same_dofs(self.trial) and \
+            self.test.derivative()==self.trial.derivative()
+
+
 
     def eval(self, cells, xg, wg, phi, dofs):
         """
@@ -2454,7 +2464,7 @@ class Assembler(object):
                             #
                             # Special efficiency when kernel is symmetric
                             #
-                            if form.kernel.is_symmetric():
+                            if form.is_symmetric():
                                 if ci!=cj:
                                     #
                                     # Symmetric kernel, store the transpose
-- 
2.43.0


From 3669440f3022c40859696372fefab99ff73cbde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 052/113] fix: kernels of integral operators may be nodal
 functions of two variables

---
 src/assembler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index e2ae753..d4d10a5 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -954,7 +954,13 @@ class Kernel(object):
         n_samples = self.n_samples()
         for f, dfdx in zip(self.__f, self.__dfdx):
             if isinstance(f, Nodal):
-                if dfdx is not None and parse_derivative_info(dfdx)[0] > 0:
+                cell_f = cell
+                if f.n_variables() > 1:
+                    #
+                    # Kernel of an integral operator: evaluate at pairs of points
+                    #
+                    phi_f, dof_f, cell_f = None, None, None
+                elif dfdx is not None and parse_derivative_info(dfdx)[0] > 0:
                     #
                     # The given shape functions represent the function itself,
                     # not its derivatives
@@ -964,7 +970,7 @@ class Kernel(object):
                     phi_f = phi if phi is None else phi[f.basis()]
                     dof_f = None if dofs is None else dofs[f.basis()]
                 if dof_f is None or phi_f is None:
-                    fv = f.eval(x=x, derivative=dfdx, cell=cell)
+                    fv = f.eval(x=x, derivative=dfdx, cell=cell_f)
                 else:
                     fv = f.eval(x=x, derivative=dfdx, cell=cell, phi=phi_f,
                                 dofs=dof_f)
-- 
2.43.0


From 98722c019c57d2032fe4c7cf19327a314924d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 053/113] fix: deterministic integral forms can be added to
 sampled ones

---
 src/__pycache__/assembler.cpython-312.pyc   | Bin 96819 -> 99396 bytes
 src/__pycache__/diagnostics.cpython-312.pyc | Bin 4167 -> 4142 bytes
 src/__pycache__/fem.cpython-312.pyc         | Bin 80837 -> 81753 bytes
 src/__pycache__/function.cpython-312.pyc    | Bin 35608 -> 36468 bytes
 src/__pycache__/mesh.cpython-312.pyc        | Bin 194850 -> 196516 bytes
 src/assembler.py                            |  20 ++++++++++++++------
 6 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/__pycache__/assembler.cpython-312.pyc b/src/__pycache__/assembler.cpython-312.pyc
index 8e36cade3cec1ce15380dfd871c07602341611d6..8c9a2d4a5d0fb5b22c3add5087afc425d1092e09 100644
GIT binary patch
delta 14089
zcmb7q3s_Xwx#+At?+47l%mBk1MRY(AjEY7DK|t|=@tK%J$-oRS2m|gJRLGv9Icb84
zi9=SJjmE|yF%_$g*l8}NNgC}nY4a>NNu`sV9MdMTCTT;|+k2X(&H4Ye8PFVidhhza
z`Dg9*{MTCld#%tl<+&bJ?3*z$IvJ$T@B6lSVd1IR_c?Md^cnY!D&|*$!l~XiLnaGw
z{Mpb|?P4OIBFIC_^nX(qzS=QwIR4>xUTNI=`o<@MGd_8xF+I4u=8fO}>6OMyl|QIn
zedXUv8&g+xK0lOjp|tVq_kT}$^XBaLO8F@;lbyS?k)=;c$1|^%+BrTOs`#n&OLH=r
z64F_+IaR_e-qqelS0~IND?;}r+%7lg21p>QS23D6nW10U=F&qcHo7c18GbR;k^H$T
zKF}PF$qe0*@_;<ntaxjVVRMpVlrwBjQ_!|^#i6MgFBw!3g~#b`4Sk%qj->AF-PzYc
zzZcwoK5@pFjKr0US{7fG!~byNjL^FLIY!b-A6#_TtX9A=qHcE7*S62*Bbp|c*NeGh
z9N&i6w<B;MkUnYL;$+o$wrKHc;-cM)&ya0&Ny%K&M0b?rlTLc1#Aj{5E{&7@Fvo}T
zOP@BVJeY5#@2z}-_-M<jq?!&a&>+}>z=h!Z0PF^SF6JLZ(1TzSB_2NyAlQrGAp{R2
zcqDXw)gzpK8|I%xa5&VwW<W`vrRI&dCv;*7ju(-)H@PDUXIq1pf0pjvIG{R?Ro+m+
zruVt|KgE0<0zHD+2oM3gT*8PUgB`qb0GXMY{Cd_TRJPf{k>m84yK<+U!xC&0(KUE#
zy^hxQ7T8;b)PB6f3!y7_=?Hn12DezqIU2v^5%N=(KTe;A{Le6N`8jmy(yVmx9#>02
z)gv$?|2o~abqwaYyVe%Z(BRmx5*BaM2Wy*k<<L%)HOl-d(KL-D(2Mz6ntV?=`I>II
z$F8J;+^?g(_oQ!dl5G_*qT0#b4L$sNzrnBbEEBYQ5`9J(lqErXoJcvR!Uh?qg7r~3
zm3PC$*vC^KaJxBy^TZ3Bpb@th5ev+yp(pQA#^?p*Zq6x(D&=>o^ajDOhZFR>t%8R3
zzHPM<K`ZD^sE*^VLh{FW>{5*lYvh7nFq}{yS5DN%OSLKFgeHoiKSofGuPIlEX|~W2
zm6@LGRcfGc1}rp5{6{Xyu*Nuvpl;xf<HkXPUaIC4Ix^L4iiwUyWc$8R$OMrPVwL-2
z1)AAywfK#&K)Ik0luqp-h2JEYnzQIvgURs~vMp0(GPWOa{&*oyh@~cKp{;dlWxQZ)
z&c?Bgaf@KCebW>&PA15jbFeH+<(5G`p!VH#ggi>t%j~+)Z|WZ4y7>gCx65lF@rX1Z
zWZx08i+=z=k+SVd{x_JPDBz#N&y!e1Se0EN6;1GgRB7drS|jo<cRSB$KZO125Fi6Y
z^q%h89S+{@r~?}2W3U`qAfj;XaJ2CA@jH)w``j%qiCs=(;Sd%o-9A^Vmwz7fS_j|Q
z(dzQ}y!_AbTeWQ`lz8oCiLV&;4CfmWjHp&L00J#uh9~1H{w3DG-qq4l+YnI#H{&1h
zGyHK4J9s2s{w#u55S#%Jk>e0%T2`7Mo^%lvIZp!(R`MMEQNzscY1;I?%X-Rsd><HX
zeOZS#zH6L1YD){KM$Hy+aqnVU8eDtcoHM48&0I8MnGvY$o7<l=YPAhpr@fn7dPWh>
ztvurx$zA^IqVu_{#&ojmg5Fhu$^&yRPR$7}Jg{_d>1pzc`UUli+EX=w%F*l@!Bqz;
z2A!viUMYT|_{9aM+PFX^H8xsR^ZF9PwsM-=*s57c0H?7#2>oGW*VZ85Z&%>ygH-H?
z5B_Nc&mcI0U;_dsmtMdeo~N`=C_ebN5u8WxEP^`_Fp+f>b4O`M(?b1vqAZeXj)q=r
zI;J8YQCHhu(nY^)n?;V&jP{(YL1=B)NN4pq_Pm7PQv`oR@C9vXUqJqEDA;~bzJe7q
z(TS}hD%UQb%j4u(KSUH%3={8|_aaG8h*8LQ>8jfJ)`B{R*X?zO?)Oy_6&vpoibQdL
z1yRy3I<#b8=r0{FaVsxE5B?(rzXxDfjbj7(h}P|`ZFTV5TuzBD1#HzVwPMpFrA5@d
ztI^%&@$!G9f8RCTd=1LF3=D(uiXVlFI}-@ELqkvfuVgyBLl^RPomG-$bmZQ|7&((H
z8G?GZ!l|SS_hi$D?~M;VyxXblW)zJIhcW0RKk|RTGURE-&BsVY;n?N&@*iW#Cjjhm
zJYpej7duUMe7ms>k3nKMWtWR@^G4*}j#lXyy0EGkKt$!Kb+%E@1DbBO{R*es(a0A<
zO_bRfi!tr_2zHtf71F#oWklIf+tOAqDPXn|JiLe;bWudH6QLd_Y4FziTwWhTAYzD?
zfV5~~^r7a<q1SbMXT_CtY1#Io00}Fg`cf$W!S^|hV?Z0+5>CA(WOyi^thopcf#S9Q
zg5noIGYRXPk@$yLi{L74eRv`HkiOVtqc8VO4_$sZN1kz0GRA4UW|z15n#BLGktFd?
zQ;3$X*>B2WV<D>njWO!EX?Ob3hi2NhKLG^H$^9<wgk0=jPLgS1V4dLviK-XBTHJ00
z#T<KBO*BA83G_^09Uc2JQT(uon8h=jh)(Xa%4oYk#Vlw9ouF@!PxLhibZoa3>97D4
z&$mp0DTEjsU?yl0g1+LUZ_rrs@tjF8Qqx)sPAQM`S!sWFD(AC`K{-jK?FG7MUTnLC
z=xFw1aq4)#Sx^h{^rJT{^tQ*eMx|5veXfCH(-;Nw&B_}%zXex8vc&#dh-HcpBM?xR
z5^756A2fVahg$_$MbH|j0gb7j(EC=wL{HTv%;<t<&DpS=?<9YMV1T_DPpC*$<}$Tl
z6%wLDbb*rc8v<k>0Tr%yY8Z!tx#46>7>8Vg9G9|QCKy1`YD4$Y5z>8(@Oz+;v1NpF
zHv?;G+#aWEm)p}=1N!qO%-p4SH+p9_Hs_bPo4t~vwoI~P#MJ2WA)D0haPdBOJ!nui
z0aKgEn~Y!iZ!q_{3`CP8yz}t;YXm3<BAQm0x2chLJ0mIw@9;FbB1+z|!_~s1I?69^
zlcU|m@5Z(&m)ipp!Ja75XeSPGGe&0;75O?sJd!B?My8F<|1F*KL|#0%Yga_M6s15!
zaXTnkZz8DAWTrlsGd9*&S5GkVRX8s12_lp2mW>t2OqTtfdpmm+qXyIdHG9{D4QUq)
z1tW%n)6NSeYe!1fhD+8D8w$dP4RrX41-Fi=WLBHFvUlYLi+#jm4_oqjv>%(|MNO}!
zFRQOAxM0|pA2t>AC`ZkS;-cO~K}Fa+?TRc(yO3sx+1-iBqPy1}B)u&?%RaCq;6O*X
zquPG$K-M#c6YEZHKDK#qXE?v~*V*q{*6gk9DevJ&<IRC`ae41@y5ivWz^dL^!KuNz
zqfPxy&ouuuF4!_M<(A>NIX&eUElCnu*&~+h;JQKi>FiPa%z^dCl1?j5uYW;1CYM>K
zbzhYc>r&EFdC_7MSNE<CW(AiGREI6|dMd{ZGHX(w^04}Vx_6~m+FROF0c(wke|(*|
zxp#A)f50`kA#A;M#Bl3Fm19M)p0RndO#49AL7}JPv9*tF?~4m;+$#)g<_%f_Fa>=~
ziB{l6IJg>+L;di->89qu&7`3cj)zC^Iv$o8`ra@5ic>2!S54{4#aGKoIZ+l%W`L5=
zmzt7tk^e-QOLix5%I@Tx<W9L$<&@t~?o>Dx_si}Ch61SS<m~FuM}4yh`6Z1zxQ?FX
zt@O;HRJ!}1p02A*p+7p9p;F`A8v5oz$08+@$dc8<Wax32g&zT6SN{)^6&oF=+n&r-
zRjB~|?exhf%k&9iN^gpo)|*B%=pUXepvy9?<cb(vPEzRKPNyn%5&mxa3qA?ZvCwR9
z0v+6;!NR$$a13zF_Re;rfB+#ty7ue9pJQpA%h$nsyqO#L4p*kTA=B67%4`6uB-8E9
z^mewkx_rF5erBe-z*T_NZl5=E8}rg`XfQFH!{fv@OrtFHW;%Em8xcH1SHVOhI8U}6
z%wR+QjA*d|)3OqaK7bZbH`aHVt8Zhx2PV!0K5pEXyPy_$P=`Et@7{Ya7^jaIr-zO9
zD>BZs2>G#kZ}kO3#)u&!s5q+Y*M$vvSL9H2F<O;5V#o{|rUWaFuIOKJA$!3{_JVNs
z!V$y5F(s#6#NUw&6V$^@6A8qv4869i<)P_^x{3H4I9c@4Q}JRPI-jc#X;l@n0NL^k
z9sZ%c`(cpHS_s7urbsjl>JWlIrEp5>g=sNC&r0J2AiK%7;9hapw*n<4zoFg&-`9=e
zw}Q8JUH=47AIcjVBnt5po}!9c57)@$Cls{daFHCSn;txDXaBDqt~Opb45CWYgY!*7
zY*g#`(*z5sF7lRz>r&FeV1mM*4hrtuHxtIcEBqNga1*5j{eU4bfev2{tIrgS*Xt)C
zvq8R#+r?Jmi<4TSK18>Xq~k0}LfUsb;5Ic+!zOfbzm=x#))uZ&z}D}3l))c?I*fI4
z<LdB+>6~O-9foTA-yz+Sm&q(tJ@TyqKn?#B7#<8rW||^-N;ElPbw;%qRGh=wJOoUM
zF>PnUfs6>^5HR@^kGb904vka(?*Qys{M?Q3A5o%v=e?Qkig5LA_%%lqXrMFLEU8>(
z?W!d!)EybmG)w4wOUaQrvurRUX!b@v8K+J`z>M28ELWnIb4!2C%yOlrrFlsV*Dn1y
z!=cscLq<DF`;Q!47}ZnLgVP7>!?rnL(_GL~pf^_at_sG7E!kIPv$U&8PsM0b>S4nH
zLvUR<X~tDqLCk7GozMEI?MFZD9(0G3mIRcbEt1pwoQE3@G#p4dY&>8LD8UWAvEZ6Y
zmYmVo8MXmGlepC+P&R6@9n3md*5~M(MpqpvKU&paH8A&N@v-8;%AaTbyzI2&^t4l}
zF3hPInNx9QV|dQWaQ3PZ%c{p$U4ek$YI5Z+QqT>!jL8wpF(>&~`iIYeodP-Cj|X-$
zKNO|YP2J5b+-w93aQBc_QTynXn&hiVnaWk<N)=Hn7hO%*JfVcLm=X#-b#$#hnfX1Z
zaO}4b)FEINxu0r7ubN75@Nxuuu*OC|4AqdAY5vdVkhoCY&;G6@!O%UwIK!=+Y_k9x
zGCF1?%&al=NBJBWCSnA^THogJIouwXv)1j21|(NbO!NiacD7JegWo;0|7>}BDP+46
z%e-D!E5u6pg8C*`{kGb6z74)wg%J5=mYiEeX#W<o6|v}wootE*-dA+htDkU-Sp%|%
zE_*GFd_!HY-J$t0AO$g;W%Sk8RueTf|7uRWNrQUXN&Fy4{UG4{D!PB`44Uz_UI}dH
zSJSwu3F4V;L}vo=0>-jmBWQM$eJY5V6;-C{AiR~RknPJ?$mrUt3{ET1kuTHe#lVbo
z2(^LFG7%cn2|AG7@-0~~gx(h?jy021agY!_4ZNK|Z(FW4-K~JC7=Nta2m)LgZDQI;
zv<ZeT2*opFTsdj5LnsZTBB<eX7?|5KdpvHY_QwfvtRx4<iwD2stKDhDJh6_Mf*C2s
zukoe8A4@{KFEyHvA{-!IQxpe8lc4`%P1J)Y5-S)5(}eF~5meE3h^uW9SCwEM4;O;#
z1pz*grYU;C5}kp_JkLW51(TvhfG0-!o+`9Z(^oo8BLRIg-YE+@3Dy(JsD6Ns-Oy3R
zI(C850nf#6riTm7&{c0txM5*4=$<#sfc*I2CMOqF7yd*~$_=yXV-kf#A)%3*oI2yb
zO?|`QskHRXL@gZbmS4e+Cei(GC(<2nCP;f_*9%Dv;64gAfU!a{K%<ZX&?KZn%rxq|
zS#HEZiCT1WLH4&|<m205LtGes*KY;1&SRldFWL742<;|qgSZ7hGrD&%dS8C@XqyX|
zGkJ@XI2F;o6cU8QM(+9n_q|4doc85_qT}}28Jw%2k8ZUCPZ)t|*1{Uw4(Yfwi0P_H
zW?H%rI8aJXb#!lGN6KJFCaEqyN_C8Tk^#NBNDr{4G$9@0&S>>OA~J#SWM2_*SK(|c
zvIXe5eM^DEIsg;-zU(L_`YaGSe)T_@+x{=+UO@Zbu@f%z<~u)8)YZTp(;k?c{{jK3
zY7h}8F`tMa2@AN0%IW57>*^!&CQqY1jcM74&J&eMUVba=LPS^J;&Sk{PKVDS4asC=
z4m};7vhh9~j0smJE}7V6f*kdC#Msdey<D}Zs&~4*E=im+ESNZD4hK^RXbeO&-kpwi
z$1WFL^6v3&ehbd6bf8ro;k*q@?DEsGP!66lKMQhv5rTZy5Mxblo{3*3a}l42279wO
z6;2w_NC7FnC7OfC)C?S=5W#E&1>=Jm8@$c@Jy_xZ;LQNnc8a*afT(EydudGuaD}}<
zMrcVdC$c14kKtlsQjcLYA+bk)Edh0~?{N2l?r=t7*j98!Cf82ysRm_z!InQ_%O7xu
zZS%q2j+qV`+?+IG&IToY!GccYdzPH9lu$7yhc08f(7(Ue%oSY7C>+Tsd@p16=+tRJ
z{^@xTX`YrVS>C6oyj1tfwimYjddBej4Z|BZg-dP^c}D+}o4E|v5$kAd1RDsC08j6j
zLUNzj&T8D_7f-y8dOk{|$KFpR$3w5ZKg<<kU%ndw)2g|!bv#q8%w$8(i-x#xBz_Nl
z?Zey1nNZ??tmRbS!;;-F;w|L&p{GA8<y5TAZS>L~rc}DI5=V+Cwz)dJd^3I{jj`Dv
zmNz$gO0~XDh*+?$cnEM_K&W_nyo1(!yoUTG^wh_jNGe;U1?t@OO)U^fsc++XSG^Cy
zwSa@^(*-1nuK08-d4nGNbcVVH_(vfq=#rfl`o*Vfrh_BEgsogq`sMo;quq~pS0Hkh
zLRd`6>d3z8(7H>nkvvA@Y&$;3?Kt<{P54u^l&_&nFHgG_8+4f`HTc9eUzP!;cpPeh
zbkZTN(W6Cc5aR+6+n9MpmQJ6(Tv9S^fE+A=bGFYvP(7M9b6|Totq`vc@&}FKsikmf
zo3@mUCY8gjEo6qFWMR5?DH$t~nQX(FBwChPL$`jmfGd%#g*y6^&unCU=vSY;#4Tkj
zVTKH|)E~v|m3v*jh)UwtsFU3ZI7Sq153tZASFwH%(%1epkK7sh`=5+@vYp2Kbt!q2
zuKlaIdnq2}66nX5Ay6Zzz_KFDF%p_|2kyl(7IODv?t2J;t)vLN<Q*WXNv8j9%<Vz&
zeFP66IE(-lPDEed*2X*C-5#KHFS{hRCrG4z7-z?oNM`(E%sq&JM{ocDM9&=UOhQRl
zB>S-<fS?z_V+bgMas(YX-d@Z-f`HvEw_&aw0ImDFoZK6F_Uq^6T#26E{f}C*A@tHe
zyd2pwR7glYA;*Uv=SY~4vqMb^@+={L7GqT;gM`Hb6{!@rb0mY~kBiWzL%gISuZurd
zlYDYg{G*z<<)nEfDi=_kt5G$A;?fud!W3gVXr47tX{i&`Hb6um&X^Muo+pG@rBclz
zsN2^eBugHzliLCN*B#?DVjmB2n!xjp)=A`#wQ&=*I>FYwmO6}Py<SL$&@Eob#)~I3
zBt?A+6q$10?czHcQmimL{!LDY-??RIkrwba{SZdyJqTJ6JS9GFAeG$_O?y+P*In;u
zu|pIUf`|^rwz!!!Y&YS?k{yy4J9Q$M*l4?*X9tV4D=D=}s$ePzJcw~~e*xycLzg}%
z>%NY{Ch1gxtve9>|5I!scH4~rjPLRH3P_!NKVTWrVW1a-ysll0K)d;W!@4~PP*<{>
zQhTaIwQRMMR5p42!dA`bmoehRhD?(4b<Z8}wE6uAZbHuDx>%A#4vO1iNq%MnVAy4u
z6jm%=T#KHpDF&p~1@Uw&SxDN3uEmlU<z`D_pevX&l4uW`a|epfn`d5AiI+@dPIpSi
zh2*@E<h*cl{)OaQMv`wCtO_SD3@jZ@%Dj-2H<FY$ur!=h7%2N7b>_g@!Lp&sQ<b4*
z@1`yaR6^7<C-=g%;*n{^r<G@Xqf3^JmQ{}_WjXV&%D9}Bq_-we9@x>lqMy5_ktJq=
z{L7jLVb#Q9e7;f)j&Vv_&r-43Okzob*l8xk6^SVq5@(Ji&K%fyA-`-Szbu@;G@Mv*
z#(6$*1<28~DTh}aSP|q0a{9Xl=bXvyTM<rO4bfU#YG2g>eXw#QDfePhrg+j!?#Rkd
zh{+rCD%v=0-k4J<GsOpH2fTe1!^X^EP3B*(EK`azEM$shlV11B#I#K&-5ZNiHd%G=
zOv~AnJhat9wyDWq#5Yn%)~tO<2l_ToZCzW3$LZiZ+3DASsA4LRohTEJj3~;*<W!PP
zE{mn9B*o5WV`nvJz}ar+F8=%Q#m6FG5|a@S*da20SlpXRrrVg}`~;8w5`YNjY?35b
zKzu!w%qI7U-=vat<nqv(G;*0!v7V>Il1!3Tfj!|G!RvI_`}hD3c^ZHh2{{v!bTy2M
z{CZcG-C{(w@VcSHnWULp!h;`)p@7NN;UajpM5g)oAcED{=z7CMRp&;ljekyDIhB-=
ztwWDYB{3us+wpe;xZysySv-|ZGD-W;`D~anYatG%yKcsBqEqniVs2R6GM(h)u<iNZ
zI3V-yStAF0LaeB5r#GUgZ-dCv%i^)=#6xxtCCwlKWjE`y2m9bT@(%;30vnqZpM?**
z>ATai)!qkH5v8xK-doQ<fE`5y%#ivTF?t;972ft1M?~#y_qMfwj9_NcFt%e6FCz*C
zxs2Z;<`$5we8e`Q#zzfx?v@BCV=5}b?JA6r4xVDKiDTn`Bkn37bI21zKPez1>M|x*
zegpj*fAHI!Kk5tON_e(o7U@vfJ}^sM>1u8Fb+Uj-M9a6e`D#6FP8aVKUztZ1+EH9c
z5*hK66g0}qh}==<m9Em!^WlFjPAw)&^{->|HxRrmZZ9TtREPl_@9|>dC6S?w`Q$kz
zxhlT1m?YRgz-GI#o-KVm-v0@fehL6=l-dS}xbRoRm=ZFd%oeLk$V=Tnh7KS*`?25C
z2%bT31i=ObrPzNmvcm{cz%o1?=~#L&hle2@&^hc@ho4O3K7%>7>|bDx9nd+<F*?p?
zXT?yziiO`Gcos*Pd`z(b%Mkote6EztQms)b4P$lUA4*AH`YfgGijydmQ?A6OD=k;b
z$vRG%e5F~jNv_Pg%8N6Xz!5GG9ZQIfc*J{`kmV#^Jhy~o8k})(y%N`{hp21i&}U2F
zMl&01{F6BIBRJp72$&ItP9Hp~U{x=R2g}K?$jf5gQm`)W6a!1iXB^=$@Pw}?6181M
z=(YuV(73Ec;^!44m*ZG<GRmk)tJYZsd@8-e*dta{l2_+38OF$H3|ij6saQIxW2CN9
zB(_H^ts;+eayA7yCtj{1soMRBL+y1q#EEw;BQ{RKi942&67q!j{4&zbDWy)`;)>-Y
zi~LY*Sxz41R8rv+qN$opCr5_nSCdk?o{7VcVMP89;(e>g#*HjI$n1kbEM=kq#ie8i
zavbD_@ssf}BM4^t%b_A_BiFzN!y7(yGTCz!zDJz78U$>WSi72}fVp??YLK&Bl^mXi
zOck%xko)6s*jaEtAV*(=&lNblc8?u@JSV*tNuq(d8ENn?PEcI;42=T^Me6jrPfzy<
zY2v{(#GsD@6j@^L-Qa26H51-(C>KHD<jsJfg-3L(G6yQ<tP<jWQo`mo$VTHFejQ-7
zcF>wA`A5lcrJ{1GzCR9qx+n5TsztgG@N@qUOR@g<rEt=VI;{?u=v1H3h$n9&MH=a5
zM{T2|&?b_#B#qNyK8b!lOPda16qO*Wg$<Nar>dSKvU<+1-YK)|#oD#xmTq`GHy+`@
zkjLe3A+gJf8vf_-4Iz+u@Hfr|aCUa16#QpYpuoO`SkEpbn2ZkNC%ct6g*kRL!AwIZ
ze8LTaYbSe}!!9bml*wiTBG;L4jQ<$VG4f%vFx6d-gZ&M;^EYDQI#BbC;>LAkit3L*
z_1=S`e;rvj=b}C~5cg1VpfgzXn18@>GWl5YVEM81({bnRw}KS}7um(V#eH+&I=MQS
z7B<g<yJL+w0zId&%k{pphrS06WK!zEvV#t|?}n?qzM7H5yny1OF-go`PoA3YC$gyv
znQH%qwklmwRgYRen$UzsDSq{r;^p;Z2Dz1<{axxNzcPAXRw3ID``-xrzXfbWzsiS=
zSrSxHLh9xA85MX!*Vm3;uSMH9<%c*iZVj>N)zO<bKSZIcGUBy@c07)n0Pi;Os!Pnu
zg&V_nwAvDk=6On>f#j!zqFCJxd+OKu^b@$~Cgx!eQ{i#<R6$42-jj+iTnpeus~*CO
za&Uwe_+am)gs(}FA0EZaH;8_)mzxm77TbzQV$5}qK&3aUR(Y&o5Q7_uHBK*ZI|!eL
z&rERur$YSmMv@Kwmy^SsO*Gz4^jrTqdJrXiGC({Jz`|G{I6(N_6H5c~^y~b_f8HBf
zyQRfJP&T^8LRh0|VwEfY$toBAPpdTIqg^ZgVNk089%N5=t<?r07N6imw-*AMixo1@
z`>>n11s5P5jJtZ{e5Q$A{qB4i6ve@%scy2zwwuqlS1^gDJ4hNn;}t!3fc3vMhiJsx
z?jSa5JggMofK!=jfcH*p>KhUElz-=(bQ9l7c3QY%6(DuP=_TBJ|HXNmNs&?AsUDX}
zDv(K<p_a|$etkES08ADz@dW2M{=5&hat%lfCV7~EQKAf5fDOJxfT9MTqqnt7nrJqb
zsjx{43a_~9M9oB~l2t{t?C~oL*`8z~kBJ?I0~?*$WT*xBV<?5*0)S?(tAQD65mN7s
zgNUbvJ?6>Y2DM#DQTI?%-A*^ePTh4KKGz%*$gGRv?_4CM1pGJ%awg3jNt!vZVI*lb
z1U(m&pP4tZV8w5<Rt{Q@WCwlE=AO@5`9apSpnFg?l2aVcn*WuY*lz8q9@7jN8_0cJ
z{9mtha<VC_2$M|5;#a0B#I=<qL5~t#l);l|S*`fJ3=jmCsVNWz(aqXV#s!fAID|CH
zK<ucP*nxZ_+=4l|Lkj2=6;RYPHG}34sk`;8T5*VjO6V%3PSOd(F}*_I43%B$b>Q}}
zw9eJqw!@X_Xlcou5e;c);?s?ZFsnTiw>-0fZ)?qTWVZ9J9qzUcc+Vl-`E^c=RKtHu
zWX0o}3W)-O9h2&Zoe-l0JZo?=Ff7Wy41ifw;!j*8wRkcpe;E&8E7U?nQ6tNo(xZ4+
zllsAelGDCdcD=Cc#jY^y{*0A_${)v{pRrPWdnrkrW!gV~@BD{v?TdS;baYDgK;4L~
zsHftQ72p9IQvP~HE3=R9{xjOLBt<=#Q=2W~i6-*&REA{oby#&qv5LBeE#h`J$pN3Y
z&rNE$pb{;gA$>E+mFw&v%2YP!z~0N#=XzD*ovq|B5yh`tNsodrfJ>vIN{jgCW}+8Q
zwh)W>qKD+jeUrr*>`w7InR5W%EW}aM&V-?FJmfWn#A*r1A*lZ$vZQpfNHU{*D3<a6
zi2!Zl8p%dx*CEUcikBFVZ9Fprkli9GZyN+{octl=6Q=r^VZfX>&<!%)gcZ!lKF40@
z{SA9*>fD}saPxf<yCUiFzlMf(i*%Umh?!hKLp`GO)S_GeQyi)s+cJEa(U69VL3YJg
zyXc-u{+@bQA&ZAcFoSQ`8RHtU5%XSuheJigw|pdLS}WwcY&Y^R++BmS>Bj4se<1yw
z6%#wis<?zB@?gb4T>r9X3}IXTyM}@xUk5o!<hqzbar#bp0QQ*Jypv4HxCrJ)b#L{d
zy2DKenu0sR=>_juW{p{)*;ulyV3zpM4wBqGV#o#R>Z#bjV(*H;&hv(hF$l!PCP-cp
z^V#D6xzEOSXwsixdl7?s(Tyv60znmmMg%CK_<95=7<pVU|7;p=<fI2yiG>I@fui?r
z6_@QIi%P4BGJEU}PBz^>P<O_46`pn~^R6^2b;{XSl9kH5tEO^JIZYY_yV^71s5)BP
zJ0%bPviQ<2lB){i$mQY}yU6+?7v|%T1XOKx&2SgNA4N2nuc5@cECkFO!~ywd#r94J
z#1)BqJIS*8b~!2P*>p{Y|JRz->(#{2Gw+%V|F5;gwh&U>v*DTy|F7L6-@r+q_&?U7
jSgRn4YYiGcjbsH>*JSvAt!ZJihD-}o{T~_rvvvFzD3^_V

delta 12065
zcmb7K30z#|wV!im?(Dz-Gs6r!goI3hK$I+)eK(qr&1_~NgaI-n4CKya0q+R0HsUKP
z$!ER6q=qb7qEU&XC2jL+`ZU_wszH1YI&q1u`dnUHOwzixzH`0{1M$W8e((N%bLQK>
z^L^)h|8u@`?~5(^@KrJPcQG+$4L;pX@AwvtIURdZfd23&!Z-Su9$Du#Y#Xc5v<cGh
z!dFbwL7OiN46^Lu8!cZOiVi+A^FqRpUVFZJ)%M#T>KOaM^VO3lG?%{eAAf$n`q0aV
z7cIH`_RQ)|+xF+WoqaQ_?^ya5wkdI4&IdF9a}|I7eWpi{vT@?U{CUdfU|z~*7Za0V
zRQT_SIYLHZ;nup^%EGPX{y@R*O37a-6;}I#g*$eZduuBLTUn;F7?y=sIoD_tbK0OS
zYrn2PX*j{2cTY5D50z)LMt3fACC9Pi<WH^kzL@l$nDmZuy)pUW(JA}1v1z*B7hBh5
z>-w$Mb-6mW`8Sip1L<e2qEv!xg`de=0jaz8?>bn?LLKFAB;^ihAbv)_efkwG{$EJS
z4QCb<$H8{CYTA0Fr>D6cep*f)k#Ztxmc2VISwEQkcG?o~vL(~cK@E$YF%hcSycq?s
zhe<Pnj!NoMHQbL<JHlVjIA+z?QhGZ(e(OWk0ZQf(DIj7Xq9YO{VkEMYh?mISNIX_)
zBBl2cxrfLwmpdqXkVp%Wdx`uDk=Ag>;`;<k4W%C@@<@2f(oPXhu=j3T<J?0fG+sno
zzttDfdF!eI(g{|&s#E_sRY~D*R$UaPoTl^^A{HVy5FrLUT9qTt40Q--kz{6ON-KGj
zaNN3b0Ul>N){oP_KqZf}qwCY*O!(Y-Gr)^%d6pesV3#)B2d8=ZarT3a_d%G__Mc<>
zM&qrdINQfBxDN-Ge#1&O4dl~25vwmy7HFugtqe-O3RFM7F`NSdtA`l)JzG^)BlHXG
z*JVC9&+;~VVm8S_vmgup1X+-cO8EvzO>kq6kXaU+1utN^I9P7u<rdkpSCGxk4%zsS
z2zI9ovPssS5}u%yQb()bqgExWRkB&OoYFoaMynH|)u(h%z)-Pl@QT~!;iAULR(9bF
zyUi=od{~IbR&oUs6=N!-I%TU@lnqtF6SORRLRMK{lf;&nCn~M^U^Tp~)5w|{7kl@P
zB(|bCF(DL->(a_PS@h};>q2pIoU(TU*x9nr&Eq$Y(r7l|I3ZgoUbe|GHR<Y@Bk3+p
z09qY#yd29e9Jj~FwrN<~I$Ea@G%_on<j~7{p9U-IPuSVFTMS?b8!Gk*O{E@f1olWj
z#Kscolt+|aqja=DdXlnFQ5C3FPD<<4@~9fBEfOVCmWZ~|S1)nZdxkm>>mR9GL|3`1
ze7iJ-YVue?Ra{dyC4WX$qAyrk8<3u*w5eRG-dS7e4+f+#<@MWkV@bf1psEb#lJj;g
z4-tJ;8IB*|oJjmE{E`oi$E2((BH}^8KcQ-u6o<vqIgQ4qk$y$V=c$<%`zrCHAk`&Z
zz<i@+P>+e{!>Bn3f5z(kwJuZoy$f4rw*=pcb05q)yz0%kQT-X&2k&Utc4@n2cP~7>
zFudq=Y@67hnbToy*LCG|?daZpdUv?tbRiZdy4t39%<ovz?@m7AY<G5Kb?MF&A9VJ*
zXR!;_wfYG-`oIh}e{18WBglhCSBei}NC#%5qePAoIZos@BK#Dep%iVux@bCu((j4T
zI;0as))L_d{4q*B#?pLKtqVY$pw>L5VehoN!m_VT5AU#;`g@^)DfNZ$7<;*XOxDxb
z#bZ=A|0C-DK9N5W`GCmBEOti;d=kES$HUrNcriyCY8BB}?g>`<y%O(7+@2gf_>>Ny
zW=9V`6*QU`)Je7Dx0DBbfeqpOor^%v$9o^)#cek7O0TcBDg4N;vqI9_*h6}U$h$~9
z`XO$1G}trmpyE5#Vh%K<D-nZKS?#Oy2c!?!qYb%<pJ7>}m5(}D(H?%c!3lz7RO0g>
zC!BJ}uSJ;8GVV$;X!#*eV_!FqV;f#IGxuF-;bnVo6<2e0<oM3jF?wjEOE|hjM@FJ$
zo`i_5e2*_6y+<W~MB<5;hyitLxcIodnyBn)_SrtiR=)NI%1=fT(fi8?>?2xlU69KF
z!QWS2Efry<CsCCT=YiXkR_Zs*4WEi;iHKEY+v_S+lf;?-i23hHwbNt~t2#v)LNuP#
z_t_)&jB)VOVB)((XW=Cs3hqzgKiqRs(5>rDEexOimjqZ!vOrZe{U54YLQHX1uBV$9
zsg}rxEUk5_a8cDtsdb6gaecje^MR>jcqcjxr~q8j*Kazp&4cEotgRBZDzhg+3cJ*{
zf_3y5*|hy`cCK6$LPnIclS%tm=)FS7B5Rbro4}!*+YF{j^E7R+5uq2MTqj!z^koy#
zPz*vh&m)Ly2UBrqexTJoXb#Yn$YwMKLsrCsNIYx5gQgTiwqT-$b=;XE1QXfo<!S8o
z17_f<EZa~AuNF;^7U#l;TY~sdf^3lEneBL5oZuCHC{ziYp;$SA%Hl_qRS6-3NyCob
zl>`~e>D^$@k*#R)hL#|z44)FCmM>9GtjQuvWi!gQsQpSLE|(Xjuy=~gtm-v~a%lsY
z^dY-!krP?h2}g>3h}p&%+!IS1v}U1=v#dmsgm*pI15Nw{ltu(!4ITrd&+o0=<MUUe
zDY?$MK~0Y8eZ*E>86>4I+f^wAeHE1fsTub{H6a{@=wL`+65(3KeY4Lo8!?i@S}pm!
z5q&xP_@S6pTrEiJ2n7OL%j+wpuc_ZxNIZ`J<MeQj=&(e<ufiXn^BY#G<i(0}=|Dwv
zYtYaH9Ljss!KEy<gML0gIhI9>qG#trbTI-9RiRlkFkWM`KhSV*LkoJqwg;BpyR_Gu
z)@L2xV;$ca>?@qpQ#hx$a9*!<KD(lnI4{}kEoeQGlxh2?b?AB%M_<w8nmnxPU`~_G
zac}6VQR7ZIVr(~dWOXd)NbYszw}}I0O-lL^PrIjMc6)xC;VoD45lg$}#GIclI=ZN{
z{P^N$6T01}-Df8EPMG@}@0+fb`^7e)?S_7bvrSU=?BBy0k7c#V`^!33b|yUSI_Y{M
z`I*_BsXe17U9eAXg8@N|w-3Z>+-XfTYM*Otk85maeAkU<ZtE{7>PkGh_RPF<i9cU7
zpw+lNS2W;W2yNmeSK5)7_Lz?HPD8J&s7<_T)wq(C-TQYR3^2JbDYqvnw^Qs*8sDZH
z&}-tI2OUS;?e31^Lm54`u?NI~rGQHwSOyxKqs7YY)=9Cnw4zkv*mF|<{m^qgtPxNO
z5|OhclSCBl-I~t?gJ`^BOBbhKnFEVKbg0%*U~jj(nbeva9`$fOz*B75p%u!ZrI4nZ
zr`edQ{J9X4*}#n^_SK<uy^e+zS^DAfnK}+-s-5Nzu*Hx52?Fbu?UezK;eP=uQp?BL
zFAtB?&($Mywd~WwvkflAwco{(+2o&$cVcPuF=LAG;mS?n-Xl$b4l!#!nhP%-=*Y?8
zxb+mCNfX{KRhTexurL!1*|1d0297$mji^I-5xiR7O2xQDSv#^Xo_p;z^$v7gNA`DO
zeq{e7Ij(u49P3prs7pDL4;k@RIc5YX#`)FaL@btLtF%LSg3fS)VoL=(f*LC1O0Djc
z$Sxe4paoo|?zo5l7ad;|H)4Lirk3MV>{0wm3&s!a7J0~KIf_@x<`Qr?qF5VB|87gi
z5GT|!-4M!<<FE;Vp&+NDN9}+#J_b8~!VwdSL*zTHLtD}MTU|Ku(bu4<lp~+&1sF&*
zj6_Z$I|y?eu{g4DC~Lq{Zs=7!<9PJ~l|?~K#XTzxVIdMjge!L}rJ`^qkq_a?lqRmi
z|A<&oxgEXY78>eWrywF!`0!T~(UJSZX^jfL#8AYbIs?9;M2+fXe#4&oX>q<CXGB1+
zmK-#-lL&VvlBirHDD<g+HGxcmL^s=9V&<@zGzg2!qOe#^TK;3UzVl&^3UqdtvUvaE
zj)Y!&&J|6GX==;7epl)dYrC~$MXzh@70r~GsjTQ^XtLeiHhsXTab<O69gyG3%>JqI
zsIfD*EBAuurryk{?c)2xMQ1!0Jo9=p=N}XYjO^6Oa8s{q5{DoJPD8t)Lw6{q&*kZH
zc{+1?UFfP4US6-9L(|~|?!AjYH5@f`I-Yi)bazec^_29wZ|bq#bU?hk1CYZ3Epk4v
zX9QkJZrY|~A}6MjIELNwR4ODgiT1*dl>|o?gd<m`xEQY73>8s4N+moBKk&qIOES6U
zQWufm5!ph7J47=3>SyO|Q)tv_M4G9_&R*{>g|jUEOfkfUSDyKY366x9|Jym?*5NiK
z)Q~GB*GI0I{Faf4!$jin4qs8{50?A<mEJO+e<;2&KRVIJY{U5?{mqoWhaEUSC%pud
zjY+cufy!D0K52Z#*2;=)W%W`W=4u<lm(OQug-M{yE`>w~vC$Yi+?H(kU)c2DejrR%
zTR=0L@=6+f$yUFz)_4+G#jELT_On-(fR5>YSDesn&}bBm7eYGxiTKkiS+l^&nu|<=
zL1sPwn#N{z*x7{+dpbH%0>%W$H^(Prl#Pg%+KrinmO&FcZA#_6%rbiqjrzDWFxxih
zu+kE;hGNj&69*f$6_}jnMnqxm{D?txfz(H4MIi@UnrTeOfrX6|2K~1<gk2ji8I7aG
z%kkuA+WA}wvhv<!<o4YnQ@*UmI1+=7=y>r#x=rwBi0w8A*oK+ansKxu6F8Dg=$mmY
zjk<PrSwGBh(lEn%Il&A3ZiCJrI*_<ACIraAZ2^t{Ic%Up_XIh<CY5~_N`wp^&B#kb
zH?SH)ju9PY$FRGKotv<;8XjppaKb6nL_3;CJFi(;_IFn%rH+`bN1qt4AA;ggl0Ric
z9mQ3U6SE~rPLiF~!Vo)|w2o`pxn@Qu`_=17W)%9ymrxEaE@t+~F*Ez;>oK5iW1dNN
zRSCG2ZlqQ@8EK51f;3i6MeBu*13hRE|Hr<VA!&HM?8q^*)~Rlii*v;p9l25H&trH-
zsL5q8KiP)yoFmxIwGF*nDNF6BqmD{_8aO68<)mt1WbfAVfEq?2AEaYBE!Js*WH<PO
z;idu_81FlAVjSiQNq(qiW=LaQJxP>GPakgYH4N=F?#^sn;RwaF4JoFa*bJ@7$lSo^
z_GDx(O-?^$9J;B1Mg|F5Ct&rgHyk7%Q#xo`=jt@AJCQ$a>!|PH&ytM*6pH&EUOd<G
zlJH$#Y9{k#PV0>WeRy&2le$?LXKcnjkUl0t#|Hre9U_gCgrrn*QHc=Idwo*bmWqgW
zE8a>{)gBxYGuit7?54fcfnzC0$F+!3D%7S@ip*IgZfCu>JXl#qwsyBKP^m&FpNT^#
zcQ?67=aCtH$uFXgX8#Zt1|l*1w&TO_=+^C(!ALx1F&580?LV+AA_S@=!eA*2Nkogc
zA<0A8JR-SNMiH)nPg+9-9FRE*6Uz~?yb1#=5hGE4`+thP`UlsTY-&1=NIsFVNYqhk
zq}!=rJ(56%YQAkw6Pa(3-4IF7FqyF859oH{MFwYaxm&E4l3Xp;erHmPWxyUj6R8n$
zkKECIM_<O|o{Y)=o>9_2YIKKmY!X`Q(c}7ZN_uii&San2`h3mLYr@Ok{z8D+Y|*6@
z8}W`8#IitnZ9N)`I=1Y?B=)0Asc<aZdFg^sG@H2EO@v#%aU>XS{<x1+fZ3ra0N;fM
z*7>Jp&>jBrPs;`UF6y=iN4ydK5Wf4vnS!3TxrP1qqwM+RR7oR6blWN$0@4=Bb3xN=
z7}ucCLc~Z{(O?5!9eG#UBP>JRp`Dl3v!aie!k@#<AFqZ~;xuB%I#rlxH6^LCB8br^
z<l*usB@oB*KivesU_bhFtZ4!2wNBR62>e{W{%L6vy3`bEMkJVufdv&pp>=k6-haIW
zd0Z9w21K32YnJ^9Z3}lDZ)Ow!GWsS;HYN_6RsZ1r23%I0VjtF`7}GTlcZ;bXU9Tnk
zmvne~?D>~9Zua0`W{k`0T;7{99`BPm1zmByqh{i(n6$aj@0x?}VlZ(5OD4EYb77#E
zng4p9FlEqGZ)Q*a)eZB*FaPzdFqgB;{Rr;$?xWq&22jcM>cJVh4^jLoqVxGtQHNES
z_uI!_x;zOMhyQUo&I0u;=AUz6A6x#<#HQ&umNX0dNwbNd2cVH=P#Id>LG9qK41%df
zY9w+85t&Gc2<oyLD;)7^ht4K<qg61to3cM7@(2+^{)nZbu1@m$n*4a~1N@bb$EjZG
z6q=n!;<!sZox0F2OFM`hq|V0L@_G&yY6$m!s(64%8<G7)4iK3`WIK&F?7!bjWqu-c
zNZ6Kd=Rj@v(QlvA3XhqU4O%DzWA|At1O!;#U8G0H5sq{}Xn<aT=eoC=;8B1-DzO&G
zfR~l=7MS1tV+%|NvsaIbW}tTm${SWFfVzibz}J-Q1veIXg<ZI6ImR19IX`$~@k%*V
zr)nqF#zkw*vb*M1Z2Fz2$s()oT+F9zQTv%9r(jIVKz(H+e|fP3ZG_lr(P@;eu`m(h
zyB~>#BU;;GY$4SW*-qpq%8~?_-^90~l<x(;!{A#iQ8gDpbelY5BrX=xJk<gW%XAAh
z*AwBOUqY$xXjOp9q98Lu$#fjbgH-+h*SBFUGtvM%iI8qd?Z{=sO!!ZMugX2@8^tMD
zh31K%NL?N2#G3D1>IRodZTPu~?!d72jd<5c+bvyJ`xL7kQcUewAA$Nns%iu}Y<hl&
z%iM$vHrj_Fg$LBiC_XHp101+V*=dKVP}P0f4!_hkxzi5b-l^|NE5x`@SA37_Mtl{L
zlG&G%*OQXhn^Mr1GO;IRVqeO<o|JjLDGS<+c*#mi>2v1xICFcQo<3(`kF&5#-|L**
zrtP<<_StiL?75xVUVDBUyv5^A&@G-8!-h9qQ!wzQ*JO|B%et{A>&CA6=ZgEM%^lM}
zeg1%`$u7R45waJ;{#cB3P1<ihI0u`iXHe#V`F&@GlIn&Wh*M^}VY2eCZdj9*5f_s;
zP^YUBOnCz<M2#(>?S{6%!Fd<rGA|f2zr4Itr%X(SZ2N69&Ht8^wn}GyWm?KAllisL
zV^+m>Z%c-42Dqa1WkFWq-6T&-oxf~L-A=!^Tx#I3Qi_1VZ44Jw1Bs%U$TTH48#(z<
zS)2_ig%J~4!%8*uZ$LwHgU`E13XvL{iE#9~K;7n0_I0H#8*<&;KK+qO-$xP=yjurR
zM7fX+H^A+Rb`-3DH@a7kf{%q;c+W0s9aZs&9%Z=`1687`Z!{o=QUhLJMNn#?nVv=x
zAZ^X0M}50guG~8YQekTMV`HF3n1jw%Gd4hQA6{lB_2p~jHkRt8xmbqLV6NEeL|c61
zsz^^N%RDd}7Iq)-Knx^NJ83n|D`2;wNw+9J8wZ)NuDfp>PMS551~ZSC@ynqpq&Fz_
zy0WDJ#*E=R^a~o0-*$N;@^>%{Qnx!0(N)x8(BxU=sRHoB=I*rd7{F}eeHy3_2~_$4
zk_G5t^5Qd?@z}mQEnjUTRz<{MT}7Zmx|2FSK!k7g=fqJf)$0QF+sh+{Kz*QYJ0ALS
zYVtA>9-xk+&CzP4HA-PIWEBv%5d*#0+~V6Ff!W+*M1(y>5!fmHh<ZguB)z1BilG>q
zx}PbA9>eUYU8?@^e~kIaGCqEW#COcD3We_ju@(_4YwLpz91<fYsje<q=CAWsN*k0H
zr@>SU0e}iZUn%D4kOt2yW2eJh%Q-6lHIZkPUDKgh{~E3ENu_H#1mK14oEh+xIO`Lv
zj~Ie=<&sq1z`vk~2s<RHm%4F0<!c@ck-kNxZ&MHb&ax^DJV+la3G-kIq$sz}gR@O1
zaRNle4w~mEkz+)T6XEYjDF87d2*NcnNM$4zRUXZhA}Oen;jYtW$|^(-5#j57j#6AQ
zzoZmb-~uir&N?kix<cdx&Ayfhf9ZN7l@WPY3D1W@{UW_+9ayb=G#~QP$BFLCw}Vd1
zz8sq_+Aq(66@r+2xkk4{D`s8UtV~z{#X9QBJ_9GdyJ}tlH{<p6w+kRs-(bOa;xoJd
zwg6fo2hYz_G~o|vu4jpmJIwDn_|BDAJ*zx=GrSCEmD)vU;O8ob7QrXN=c>EL9@r%+
zM{a=xQ$-wh+lYPH16k9QzuyAmgfG-K$%IqGj-+=%^kr?0vh-FspUQEJYtWyu<u!-&
zOQmQrxM7EK%VKy?_);A(oqMLy;E+0C)H~gy#4iEA@D(U~m%t2YQqC=bCgE$fE9_QQ
zl|mNmQ+Aia{lYhcrS~f-^q%0p=o((#mC{|c6jHSoj)w2io?KGyTLG(9@jzJ#6+BIZ
z!vLYBYB#^2EqtA_{0wuQ;O_R9STW?T-i+ypncu4TOKa&KW%5eI*I7!<N=ShRyZ5a`
zm=#(DdY_z3K_2BFx53@9^KjUXAVD`hEb}ghVqFa}7POt}!#_YtRc5UQOT3nh^oY2U
z3BPJls|o~O6(8+27?~fszT+n{822CiW<^kz;ny%Wug;Clv2-l*;0l`fM=R`7fi6Kt
zLpK!o3E>Af>PIUk9HUC`il_8Sa1Bf_s(zZm&5G_!QeIpG8G@0gS=T7DqF)Q~F{TOu
zG!^*naW~?ylCu_WZ2CKGrW5Do@$iqo#Yg%%X3;=QqEb~ou~DffM!mUkxqL<4xRb=e
z(n48org-F=`&;A_Nj*e(4E(=nP|FAxiJycFK0X&AAD3ItIn?Pg4f&E{T!;3yOet6g
z+4>&Toxnn6)jB+h17_tS{)1atdOJLlPz{<<Q@PFim1#cc7F38zd?DD)ccK|oG_p>z
zF?cUk7ZUwxlwfz?XIGXj2aA%i3S1_PN7B}Z4D8$a8F3hJ92A06)_XyL4HzTe_^N3J
z#d7>JuvU$_h4FO?7ug166+@F29D+ZxX-Lefi1EY0QL>4?k4jUPr+|aBO|+m2n3ba&
zATf!*^SNJxAsxIn^H<3j$ixo(H8*~lWD#To&*a9)mPTCB(C`?z$=7N8h4`72unVL-
zWS29fEZ>M2TrdSp_|{9-EBnh}%%<<>592|H+Q7dLSH^D)ZRi|C*M{~yWD3Q8e{XE<
z8(ba4Uc1N%mQWlmQ`X`o<(43dZ*YUO^6;85-hTZx$MQ8(%#~K5?!c`UIp#Y%FdcW`
z;@}SS$#K`2i(h{D{$6LUp<PmEqYuHN+pWdPl(I5#7~*h$(HT-oMQ{pUol?FT6_0u<
z&y}Ha;3or$QU=aU{OEvBb}ftkIsa2IRuatMiP!S+h8C)d%X$3`R}O8438KD1?=f^=
z+zfYHn)oq7Aq}2lex7&;4G$ZgQu3GT8>Fx4IPoJ!2a(^1@H54_dKF0dXF=ak6E6~U
zmWFRKw^J#(U%V<}qBvR^M%2nxPq%>2&j;oX2EVo(q2@0jp~)+&xYrSZihzyoDvA7_
z0u@SOEu>9Lu;H104*74^e70H8STpc_QlBfo$CclCTaW98dly~0Cg10p+~b<u>ndqk
zG@$Q(q89EFL~hQN=@Oh7#bL>YqoMB?UBWfi&a1crFa};!W(J^CSc@<*2>;#B1Yn#N
zMCI*W@B##sqr0I+k5Qh5_@Z-f5I@scya#TAo!vcq;F7M1Z?hFA8Vp@xaE?cxhNba0
z+GaBJrK;g4nW+9;f+`0t5e}hz_c?k#NE^q|bJz#vp)^#NLAQZpWz!cpTEw`;=dZwP
zOHksX)6xvjV?&Q!T|Acx=agKJi0Ch)3(83vY7VvK%<}OPX(c2-`jm;hY}IWw>?s<&
z-CzQ59RXF6dcPH;W|+G`L-i=Xx)a8XuEcbsd+6S&It=(i3VmiD#b19<a(+@VHNoO|
z`{9a?oQ@qwa}RCrb?3cl&F`*if~P@ej9CPVYcI?JrmWu!*~Wo*DjIMq?R%lHX{II?
zZ)L<dcP!)o7srws4ZA#iiCS9XZesX;BD08;5vd?TYA?|ezUv^)q%tBiMY29?l@)iv
zw2~QO&cGZ&lk4f+a<1}<rcMy^E_+2$%)4TnC5WR{E~%F%6SsY5EgnEF&<~YY?}Bmq
zS7^{_%0KRcl@m5nn*4-_zHUnm1|p@$h<ok=p|w`uJ#rV7vmu>O_Wl4|Fj{%|2e7cB
zLJJdGR$tZ7|J72%N&{G1CSBFg|JCiWy8s+5w_VlH|J9)OHbKqO|G;+LavkWdRv9;?
bK~|gos)qir&YHT!2&3B;{7pmud>#J{qiiAb

diff --git a/src/__pycache__/diagnostics.cpython-312.pyc b/src/__pycache__/diagnostics.cpython-312.pyc
index 7b90cc876a7c03b11e409b72486d4fd05896f6a1..1c8bbbf94a4a0f47011270b6bdca75eeb988d30c 100644
GIT binary patch
delta 33
ncmX@Euug&JG%qg~0}#Xoea+g)BhSPpp<k3*kiXfB=`Sw;o5cyL

delta 58
zcmZ3da9n}sG%qg~0}%YybjjSvBhMsnsGpIao2s9Ym{+V@o?4WbTBM(zS)yN9nwXNC
MTAZ=jkm)Zk0RIaU3jhEB

diff --git a/src/__pycache__/fem.cpython-312.pyc b/src/__pycache__/fem.cpython-312.pyc
index b103122e4c1a63c9ba0ca18fa781a074a32a3e0b..d35c9466a943ca9e0eee41cbdc4471921d451612 100644
GIT binary patch
delta 7755
zcmcIpdt8)N`hTCfyvzmW;tU`cf#D(yC<Q7SUb$$RiJF&6R6=J!6b3v4CO8w&nxbh!
zXY-}@S7Bvhx@C=qyW4u{uA2suO0(7WtA4v(es1RF<JNxKe&;#wa8>&6H=mCW=Y7s|
z`99})&U4QD`pym2$Ny0o{t^<R6WH(kgTJi3QTnRk7nNwbjX0|+ePh&lQ^Zt*AZ#5?
zYjU=z94fDt=H#Y?d9-?A-Eu)V0H`Pk?x4E_hnh~z9Ty>bv~`TLE^^3h5cTFpfR>)g
zji85e#c<sLt|<r)L$xt56dZas9}B_sQm%c@XpiU!S(hRRB%<2VE3s{Kug`p8mu|J9
zR9LN8p%MhI&ZBEl>=0FgSM=&!snz;k4Tpgi<s}D=E&+#evxXMuMbY*=t65(vc!NF4
ze4$yr;%TNILeJ#cjQSEquYIq<6GDH^i!keZIr+khG3be|KNkTynv<V4&fw5EG><4e
zx)Q|{=5R;4irI6edqNx#!JZu=;%^4>E#rvD@fzu~`SVAa`XllTw4cN6PoEW`*P*lr
zJjR12dfUvTsY5(@Or8N8l&w=U`2jqRCy(J#x%SbPnKtEak3w3X239&_jD~j2Oqyd3
zET5J+HG9k+qsLgHKvQfX^(wZoUUP5g-Vwt99@h(a;Q+t~l*|bG4Ta+wF_1GX=m{Kj
z6umS%?sk^tAut_mO@@VOL8ZHIp(Or_l69Eaa(iP74aDYvgQnityrGn(X+`ghIAA8s
z6Y8<>bcA`V_!l?Cz{q)O@>!HhSM4yq(|dgnEd=|}6yMJ6OztZ=GcP$M$)qi_W6it(
zi8!GAcFneha~YyRu0s<kELSjZMsGNMZ}$A8;Yu?L5qV4wbDc&I=)!psA-x&rR%r2@
zwD6(WCNXRZS2HWWSha%G4=lhh=Om3ClG*xSE5MPM*~K?!wm#ewK5RJ*XdHvK8QYXB
zmXV$a%nrsfZcr?dLT{FDxv5fFRN(pt0vdfYAP3anRG;+GxnmQCM9buE0#5&W3pw!?
z_R{XQXQ*!BTfEt3-xeOl0LP9~Gp(4w#%FEc8{>(oH`a$cphOwi`oVnb$MosNqTc-B
z^u%HH;)W^hc3gbiJh$9dwm~xkw^ckQiuGM-UYezM+gW-O<xRxd`d+@ZkDug8@I>)6
zMsk|y8P)&9H>S-KiyS^q49G_JagqY^{hWADT;J@Ff{)+vl1gw*8z%7EdEmF&IipA3
z)E+Wbf+u)w8ik1#`nONC^}r669c_%MA!<*se7r1TB8ym`2JF?k2YW~6|A$ei>?Eeo
zG#lANeTDOT)cVq$myWdEc=yn>x_G*BNf@2G<ZB4`jbCa4i1N+6cO<|Vy7Io$a2vJX
ze-V-?EL)=XE2}HZ>C$B<AXz#Y4{`LwJz6@wFa`?g%EH-mF9!=oOOx^w<A~-7(&U!O
zbZXn8w)`$j%11_fr)GX<+Wc-tjrM^8Ic=-=%<Qt*KQg9vY6?2X6m&CcO!fV}@b3y(
zOwX*07<tjQu*<fv+qS3`p0c&(v?e?yUQt5mV&C<Z79}jA+Et^N%z`f4f^OSA{W6!C
z%py8rRn@FiZDEA!l-5ufqdPs`P?(_mOSGXdMb{N)C>*Ohr!f>}>bg@5g%fojnGA(f
zbRSJJEC=2BIKy&LcR^!ZuGd}2FfKRwzFSqLf&;$grN;q)Mwiuyi<Ro|t1h2ZrcuM!
zw9U1V(TK`g-8ZZ?UuFM<M!GP}LSLy|A|i|EsjjLS{z-pV^%Q(hv(~rLBBG|<>vzBv
z`T%KytMnU2uTkROPpfLwG_JZGex#?W_rXteeN8+3n?`PEho9*i8)N8yZ`cn1q2&+m
zgI}n1<35F;q<`L62O)G)?VXG^)Xsuf`f6P^g}TY|Nb43Eqz2*rVw%xlrB$2E!9>gM
zf`nZM1cJg@qLEz!7|cDpLgo38Uz<<hc5hZ1YScW$Xwnd)L+6J&4a`S+TV;n3LBI7r
z5g13(j)zw0#|$<JQFLj2tt>$c8uirNureS&itcNu3XEgu{KkgB*hYgMUSiUr9d<_^
zxF`@$pMQ9=ekkgM{-{1|(9()94XxjrKwZBv1}rAhBfnV^7$?!(&2t0e(e$0o3-p;o
z5Zmd!kL2IvBz2IJ$G3#*Ck)X`qxWyg(@!4E70007RG!DEcrE?jq^H4KO)>y+EKc6R
zC;O3S2GFI`Z?+x{jI-#+O&x*pMEd@=UHaKW{7gbqbC{_Z`p^?0^wjo+viRdW*#-X5
zCeu8WUpizxvuXN{7X96WO~GUeJ9h@0O`-4Z+-e$!5<D3*ab%~q-&z6!(`ox-&&2j;
zD->PWQOY#fnK%Ox-op?Unr<}@IW({N1sUfMRmi33EiIw<p;aEoka^lbRn+i!!|)Pf
zJ~}UC&X>{&)EdA(lQz<3IXE5{k8ogcvuXKnx9OLl-@w*v+?`FcpLk3Tn8zwB-74U_
z(B~@VGnxLb)k>dj5vgPM2>pry=Gab$x%B96kAB%;u6Q>pmjv=@rY}j;V(&$f)wrs|
zt^~}Z(^|Lbiv}Bm0;+wo8_xSaee!c9tfR-C&VWU}%TF&*h~+3*L1(p1g|&2Z+ZQ?|
zGLW31ReO>ZN}xNnX}-7j1gT*Y{ouv1@QClH7lQ#d(m4lhy2_F@#V$v=le|nb+rJva
zj#<I4s&Km3kg*J>n>`9~WE4W)!p3#F++uf`I~@g%(A@od!)h7#CecRv^ZtmS<G28?
z3$$yKm3|;<ec3OK1!$sc4%`LrQs03mGU{%n+kkFNvKxn!lx--kF5BSz7;SC#)gD~0
zOhAkr4QXT}yGW85JimGsA`9?o$e}#=+_&)1TEz%1&LtIGk~~Jwyp{%`z8_z!fe=2S
zCbAISbU4@2C+`=XMXR0V<zy4>JZv>@LSTXT9hD{SalY$^!(hY{h(ReEIE3reNJqUs
z8t$g~um9KBhj23B7WLhDlEnoU^kFop4Mdt*wupvwY^9&SuBXp-*kBnw*)c{R#Kc+T
z!c~`o7W?Aq@q^(s<LF)bksi^bST~V*v(O)W;Ze|cSp|o}tMn)x3jX0>okyfC-&tck
zz+T;y2hcnFd7=O70DHq$(UTuU8~P_5Di6?{=VN2Rp<2gOn6i3ZKKq;zP@lp~IK(~~
z5$Bjp5Xuge@d#@z^yGx-XuMZ@gB%+Enx*k-JwePcQzB_HyctXznL5OLP~UrX<>ET8
z-lKN}a}%0g8FmBIJ3^4>0*Aq?m10vNj3MG4_xv*|T=Zx>+JnXe>{^RI_MwB_6YVD7
z*GF%t>b1mK;v`PjYNuaQwWiixwz{}{KlsIp;wpD_CBZ05vv=J7#bdQIj}i9qM=1Ry
z;}yoeJbk~SpkOg?i!7-hvl-$?(l;uwt4I%W=peRT&&$If<SchqIO|>2yl}~GmVbXp
zADANMpWufm!d5{b(-`sV%PUI}UJ=`)1a}6(#kYsZg=|JSbmiBSSFUFJq|!z9q7W7}
zc@oX5D+${~e&yQY)qd3)r`zoZYmr}3QA+;I^xPqg#Nm$?9*YesRx#EhppD0-*B74C
z$F(hOU;Nzi%NoHPdeIc$Wr}ah=r$!a<@AKxnr8RtEzQf$>0@y^{Gutb%aqu*uzgdf
zDY4r$xhdzGD41<+=C(Wc&D}Hi`FY)@Or|$By(wqMs$H&auGWRE>z`c2<|ph4?>5-G
zf>V3aZyPXKFVAM}8QE<}?FvrgAS7dpvD;*8voT*y>K<#%Hf@u#X>pI<)SR*Xjvi~|
zMQcizHKpBrDF4LF_cKn;?zE<KTMM?$Y|3dOJtM5m_qU8~%Iir=ZO?h`zUIv4wU19b
zG`=aH**1pls@PW1n$tf1mFfGZcc)Dme<G_VG5Jv9Wu;(@zAAumQj_v?<A^35iDgS>
zSNLH=!G2{yK><m?XCQ5CwQ1z>=w*Yu6L}O<!86x_BZ>q&0pYy@TL5_m$;(LOBZ?W6
zJ8m`dkTkF!;9f|Zk1q(G2Wkt)z$RE@A4!!b_QQj|-=Fvz^w^<^4b}J3wl}HBpZC%`
z-b#fdKF3>H(08E3pOCykH@=+(UA|Y|-lo!QXPo^&w$mA>W>~PH71)F2O5&xsh0;@x
zK_iVnT>yUH`qMp1@m;hb(fMbSU@xsXd#A`_`hdQ9HWA*V|2UhX2vhsaALfg2k}f@;
zo_&JJ+egSY_cMh4;8JIG(FP}}E?ez%lXuV@`tlo)zoxjnq{!(gWit{zc0LC>AHR?t
zhA2r33TgWUSZ`i%Awfj_x<vZFXQOm3XIbf*Rh7h@?0e=yYjFK})WS_-A4z!le24JW
zmvD-&h8!k7`jH?)auG)#Bk4i%2@-5M<N}gTeEcgTeq~i<m0w-vayU1V&yb-ZP8OKk
z=|H#i$d^&jMZ3OC&iI^5JE}Iw1@H@+c?EfTTnFdIB0N?6N=C_#IQJQ~e>FGiZ6;A?
z&95w(EuYirC1vI1T-5E`^;Mc_9M3Wj;8x*r#OKglHxfKd$VGbTS}gR?kn1rsc;0Y%
z*lFjgE~~C3A25e<3+lqrA5r5w9O2Rv0Y@AjhC?pXb=RX~a53t_24F09yUR*l9Hl|@
z?Y+J?xSoUKK>8Cf01_I*(~htn6j<V`$iuZ~&^A^(SqH>+POdSI-6VHF1WvA_+y#^i
zVry4jTji7+U_X2oWXixG5Wio?EEZK&mbt3kJPkw+NcuqmF(64MC5(cvI?|O85|r17
z)`N+&x`w#;oxn}7uI!>;>2_B0ONU>Fl}ntZ*oCpO{OTGP8~a6fCCjcu+N6W{P=rZ-
zMuH~gLbxuyrh{Z?mHax0g*xdc9k?}N&5lPsoth}AMh`_+c6#@Hm&gBiAW*BMd%nq(
zB7-4Mx@-q+M@cZ4L8){or2+$_Nqa+J1AmG!z}Q~)gm7ixV~M)&JBEgR$52a88DPeo
z#dh#(iUZYEKu$7*Y@vAty@6=?rs3H;jO)$|?@gR|3kk+d-ol9&r6?ne3FQ%9L<Ub2
zue3|jawCk6KgDG0q6QQUTScsvzK-ym^nwxMbVu{sHgzZGoYUuYoHas+Y6&(cekSu{
z+O8vEXdnM8g|y;SKUfVrvE{AG&r}W@cZppqmkx)+(KkwdE6epI>0efu3a2}=LP4iU
zK~L;n_b0U4XPTYwc-bUDXk5;qR1pq#g{bXl4Ts-rSE5>hjPPG*K_QptPiSTjlIM`L
z;Z(T1f{4toa+IyE_G?N=WyLyYt(zb)xuVLQ#T!^3lpB`RZi7*Ca8K}7LwFlLgO7ZP
zd0JjXRb^dS6+hw$yJxXY%y{-uGIkD|=WefLh=&>QnKVBhGT`4*V?1nEglRiM65tQ2
zXw)Guqc$!oTM8aI_tPkSkqi@HU&qK4xKC5hlX4Qp@$MwQHu~`KFp?ukUT1`DPiIMS
zO?fp#!u|86#S_CDE>DITSC$9J8!iu!R~EKb@;^vkV@~`b{pW=A{q10aA9rU!l>Qg=
zqbznf$cNJC3`ht+iyB9f{DBd62Jk2vr3W%#q>1nNZ*h`W!)H=c28`EZPnO%>Vd=dL
zND2kU@T=Fbw}CZ&aSd;4q+5baD23x4Wtp%{X~nLEz4hu9MkIC}Zpd~>8Cei1{V)M0
z(#TIkHBctsj-|9L_K`30Q>)g~$J&+!vl7xU^g!7mSTdC{{7M$+{=h3lqjV_?W{8Qb
zqTOC;+(Z~}x@bx3vZS@oIYhcG*`2}JQsqP#)5|S5n%ixe-WfcdR&5ERouXPgHW9uw
z^)EhmGedfH5-Wpg(v?Z@fQh_-t`9L{R~5`6H>Bb_U_$*dWS&Oy9+G#E;K?MPgFHd4
z_=p>u_}CiA1)Gc^*^yu@BnL?zl5r@4S1I|X^B}4rc@?jqdl-MS@Pk63)?5)I)wU~>
zq|j`*7ow$#Y#48w0oTUIs-tCfRI-Qq)vlU~s#<<&CR?PF*|5yc--G!Tid!G-@h8oc
zib_XKxpNx1Q_7zVdDGTuA+qV-YXbhgw%k&sfcemL=QV*3Zj`89DzN+@AicIqTOJ0{
M&0*IC{L69t9{?rPt^fc4

delta 6865
zcmb_hd013emVc)<YNIG9KtQoTKrIms5sWdoup}xNm(Hk(Xb7Q-MX|tJ1qxjVMvWRt
z#GKZLPRGWtlNO@sm{bxH(~h)e>1-1b+oh6kK4&tcJz0ruMyJ0{oO^Cnv6Pap|CsvY
zaNoJ-p7T4)J@>xHrJq#q-cXr73J=#y{CDZDf~qTJub6JBthT9@HR~KxD@&cOj13Ov
zbg-!vRqm<l>q_nG9Ii^QMV+6cxe_i(+tYAW?vpqr&t`$Ot0d_NkS0lTg%wJ66{hA*
zv#8f5gzz<3n->pS?8%D{Q?-z!4l}=vR@n8NWd#FX&a)Mzc{Fz8+KH0H;@uX%Qc2pG
z7Bo;G?bekkDx@;SYLz54={&kUidKzEYSJ|6oRi#!;0k;ARta13M`KOCUY%ABb`x&O
z&y3VpNKFQhvOsE6uinhp8?h%pIYM8q2<mSN_ZYE1KR!|)<P=D&CzB=IeLh~Ni{}PB
za72Od!MK^8aC?|NY@5QPD_7+3iPkA9uGksnG1`Fy?P_wQ4cO<Lqb5$1$)jk4&ClcK
z^R3ujFex!&&`Hlwlexm=PX+OYfJu+(XapwBPn#8D(-Sci1=(m+bBG~Qt@#|8%DD@-
z-k+>)^eEO$z@?c9_|E-l3(SFV>bOO-$LukAOyvsF!vkwj@jy43gP~}O90BdLAljuv
z&>m58CHxnP#S=M{Ga}+_j#%lug};6vB_jl*9exI56s-vL%C7#I6_yda$_siG6Y$Co
zM<aq>HAN%O&g$TdddN(SC)yJwvJm63(BH;8M4`1n__ull+ety&v;KjIwvH3JG6w3-
zEb30lQn6#cHBwX|(+t)i9-N;%O2{xRaqVFV(kcbFXljbZ^Ya&{jZ~G>36&?pZf?{{
z5<d1|e0UI@(1NuK(nIUBbq2?#a6aKqq*|b#N8wKOk9dFJR_WKKVCx5}^4fy5(2O_#
zTvd*uj4utTk>*%W?1*(7H$v3;Zsq=s^2AZr$iHdB{7aC6*}vl+o5Vc@=cPMWZ1c#w
zDxOxPgy6SB^KJOCuqfj;IrZ(D@xUGBZrAr^k!_lqx75Ty58&rPQ=%ua+0-0shjL}0
z3m8QgNF3+_V>w>y;*r*=M_gweA?lqJb=pmL+-FI{W`^#wWXe#mCEFu$`GYB-!^Q{G
zn}fU363kaqs%M-hL1Zmn&=k*@!6&gllRRUIBgQEK+0g@>)PVdTC)r~im<{Q+<62)-
zNzS`QaCe+=mqVXALU9dkkK$NKRY@Mhnsm&Jwls$a(*XRaY2C_av`p<W_z#?ixZFd$
zWdpTs-G<=E{Qox^D^w3EOdL?nN49A1lZ!8^e_OE(AjVs{+zb%!ZCDWpFbSW1_(RCR
z)sI|&@tD1G8SY-$!$(VsCt^eKSeT9N#q;N0*GpzgTef`Pp8IfCM{chr?Oeq8Gunk`
zCNAvbG-CYc5mC2K7oM3|*rzSz)86z|R}{8|&<+=q(+<ZUitn6xth8&^n`u4EI^z41
zi`wBpa(ixj$^p$aCB!WB=9gHMP=qTUPmCCx>gQ8M*!p<w1F5=|_ozNlnpWoMKb&GJ
z2K`5|recl0*Jvs>=zFtF#b$k9w5d2o-<M-5PSBrAH5FU+f9A8P`afqy6x;OY6C;YJ
zc=O6?RnX=2R-6Qo&{b8Z`GrzF>aT0O-&SeWa0PETH*#8A(*RfT%bN9?tGp*NJ(kwC
z!Pj`L_5gf?Pp@x>Z*e?pgMRF0JK%eq>)HX=@B>#D{13X^N8tu0)g6YL_@}x~wAQJy
zuKszftv6!YhUeh#czVNO_z~A`JPbc!!iKS!*{~XnxVvE<zjR$_cmT#?^3&7#cv<7@
zf$>L;cN?_)TF3a|E-@jY3Fk*Thjwgx3|`(AWibBSbR=H<Wt3lA=(<p~5yRD{hNumh
z4z(JXUf<Lnz&;9dH|-6K<IvQ++K@h6BhKBV##fr_0x}8sXiH^aJQ{y$sr8R>b&COy
zZLSZ@Sn<&(mYH>=iC=h!h6R%FZ%^E32!)*-^lAaVyCou^WgHr}E(?rPaR1h#z&I7h
zY+GW;9F7wv;P1B;+@^S9Q1MvY|Ab)_1l!O<63YrvV8dfi<{M@X=V~UAf*g^?#oJT;
z2sG)$oWYq72Ov$xxjWtrjI;2ro!x<PHd>$BZI~CLb2=@bFLa*Sqr=N>;h3~*X<*4c
z*tKh~c_A%X9um75xUF@Mp=h`^?A&ES$I~r=<uftyneC}}lZ*&`0gWaSi6L#~5S6p=
z)-wmKgP9USLOeuLGn+s!4S*hx)7p~EcanoSc%bchKmHIEFc-J&*%PyZzzF|B=X3G#
zXSa+zugN0_D~CWBjjb3Ra6BI`Vw>M_;j{35WXB)C)4$qj_$R_LxM^V?KC^d^KO7<w
zgGxfMYUUG`Qi0`i`*?hPUz}l8h_VG3A$tsu4CiVJX`y2v`Tg=@>v9q)qs)vPn<CuX
zzSHpNaAmL%AKTvtecr4CmzA&vV-9A*Qt!NjOB9;5Bw3Bmb<BcF{H)_Y^!%Wc7?F?g
z{X-K#;r;H=G&MA0%Ha&y;$3>!2#O7Wf3#UfZQ??W=Dbo@m1~N<rkuaw+N&MxDDLe1
zPuPUcu7t>KB%$|9h?ia5-}M4)#Ezr!vC)3EtM2jg8s>1hOUkQDD^7TwFD?Ptjwg>4
z!aJxxx>wO4jE!j?YRti^>Py{K^^OY^q%GbvN7pM;2o58Qtc4SshE3p+@~Iyud;vb%
zkLAO^c{`7-QA7!GA*m3O>}gE(rh~=1#9Ig9VnWUQLU{JIycq-XK8>TK%u!v<8o3#l
zh8sx|KSsB4!3?_0gW}5cE_^)}EWaX1O258iB-bL`!X0l!K_UM08^6Y{x((y}D(U{7
zl;l^pnXhZq1!8=6)l#%~ZwC*4-JK2(W89mQ@$*SK#n%!pesha5(xbr4{%CCa)Sv{9
z3VZ()qu{c+1!FCmql$rRTbL*8A&$lS$Ky9th1%N623J*CX|+wkE)p)}#1<xi`obL5
zj&%;FTLhHt<xqU#%u()O4riI8WL;@3%b_Kd8k-gydlKS0_|PxiPNNfi+QnaMB>b?)
z8dk!;F1YF>?C+VAweqaN+OL%&V=kD-^_s_ZWcHcUcI0wSMC|T$JJ+@6c4oair)y4M
zdQQ*u9qal`g*%iNG56GHgHJbr083AeSvfrG>?tx!fcUx2$+JW#PfP@zqRE~k@>?Qe
zLtDuOkvbRgh-~6j<ywLlPA$>TP+ORgaN&1{;<4y-7u0)yIQ<teh)PSQ#U1#UcTppr
zJ8<)Rli;BD=zBUayhQq5A@VBrygwa|dvCnIQ>ER>IbFbZ;*O8!in>^2Gcpl4{;I?)
z7(e^?8EC;ZpDcpY-nTxvsMP#{bnHX9Hw`-QMDIL}@aPok&!)l&oO*Vm;+D$$$k_r7
zbmPH`Q<C1`^0p|y&MvOgXRL6zOX?lWT~+3AvA6N-i}A1zHJ5VXJ)D1OW-LKsdq`4O
zSz29Q;;>gZSR=MyN`bfW50`9U_FlQvZfyRD<V1zUG2xwnEke7Gri8P8FX-_M5dy$I
zq0y&A{*}mCBJ?K2&J%f$9(y_QDQjzLed;Qw-La9KBZihaIBu82PG<4PE2H6kjK4Y|
z^SqF@*Vg;9`xB{oo_Gdw)3LFH_MT74DZ5E?=WzYiA~=pGuExVE?}e-B<^+*20XEbX
z9CI@cKEdpp)@Fk1GdfEK!s2556P#o-`Fn;)1O<dQ1*f~p-M~)q1x#ptpGL>Y_`lPL
z!pm+E5rD`6c7+p{iSv?%{ru%fQNg~Oaf%yi?>9GJFj@u7v!r1#?0xje%aw;%enkzI
z=Km(W0=34m(d}^B8Giwj*q5AbGy6dkUiKBqeawk3j0efxQ0wsT+d<UAw?XKH+Nb9V
zOKNMXoNkv0Hyd<=4!)!$IbQ?Ouupzi1BviScfAI}!{)Y-86$JJ>zGrtP8Xv}vT1xu
zm%}Z3vrkVY${ZC{HBLsg<Wtu<X&lGZ%I}54xEKP<{z`=O`Sbpj{9`yw09j5mffdT+
z`%U1|Mz<C0YCNNjmwQZ5BA*-$MlF3$Wze9&L)RwB{TZN>%OfC9erqxqyI+d{6DSpS
zg}gr!(&c_L)QhL8NXQ7Xvq2$$8VNC=lK(3b=H@c$=Zjc3r#z~nl3yiIVk?O3yhcG5
zCH5vwyhVikVy9{1knD_t$uYu_3&apP5fT4FemM%p!%6vk6ePhe`3C=^@0rr^%f1Oq
z&l;9?CtILfwT$dDsvJhAg-y?5X?%o;OjCo9{!Wi#o6(o)!A4`#4Jl!Pu|>{^<5~Mc
zE{cO$;O*WS2YN+D;N%ipdqA~KB^LX%rPbA9s|9i*znuU!#dq57D+%zDuFM}L0rOi9
zgP$>??D`4PZ-@at4L?R)?i%(xdK~4C7zNO$vR9S4ecEzXvu>@U!Nmxoze=hdrS-gx
z`P+{CeJUg_5MAXQmtdk-o~DrqsYt^iTB>ZUsuc$kE1)<W<2+lUKLjET{{AhmNQ1d>
zPHs<wO!%ApVH!N8xTWo0J|5mu!7<sK4hhgAr>8?Uv~`#ALs;7^QbCm<QsKWjchTdE
zM2-+S$_d|Rj`GsFYB#q!*m^{*h!!bQ5JvB*!Wq#b{f(bA2;V-V(W@N2FPwIZzbDBv
zvcL@A$qTYzwBZLbq%5`D*}HO07NpF1hnD=F$jhAA;szb|h4TwrMU}In#93qK;S}K#
z+xaqyi&{J<_hvzsff}p7lf5XLvmq@;;tZd<lHY?WeVR%qRRH@yF3g6C@J{~C+clGS
zq!y_^T5ijMnC`x8xL1iUd3E}K;n-#Vt-mEhw%!ZBQ1UM<@-z2BF<#Er$hw)3KQ@^H
zKoRA&LWtQk&gcr<&|2i0nJ`yF|6*~ilV6_+S=vrrujTGD#=GVJoe7h*ou*#PJ!g#f
zU~~6qdC7h7g?TX2LR+?+pTqMzLEf4Jk44xNix#mL$e3!;1MD05dJbeazeZMjh@2qu
zHj(2*#3?1Vu-FDCiRTriL?n@bTZs^2Hl4@}@kq0SmyCK^M&tn9hC2A<R_S|%Lan`~
zNl+(Wn<013f)$XkZ#HBl&A6UrRgdv6rX{u*pW0csuC{^ACZ*ftWwT+WL0s6y-KAbW
zKAUgg9QopG$e&%MgM=L`u1oay`oor51uTXg^R7!`aHCxPhzcy<OGK}4)K<sBn6}s-
JB>F21{vY0o(ii{$

diff --git a/src/__pycache__/function.cpython-312.pyc b/src/__pycache__/function.cpython-312.pyc
index 03e96fa739b7cd7abe1184c1567b0970d2a3bd7c..f4bf40a0fdcc21082bc3c243938b9e538fedefa7 100644
GIT binary patch
delta 2388
zcmaJ@Urbxq8NcV+*Z(he>}%{`6AU51g+Kxc2@nEJfwZ_SDGj8MrKJWNW(RC^?W7I5
z4kSy`8ycx)M=ey%6lZM}XqZHIH7)JK)MyXWT6M)Wn=Px8)<v4shiM3y@)B)3-!+iz
zVLOt4=R4>7o$t@N-#N!~@6j7K>AbI4)<BWgJn`?)qoz;uzA<X-`-H%FM1Ev+acDty
zdhQ|gBRN^@(V`J~t>QPxF+%vlS%Ccnc(qUp@`(Jq%5sE)_*1h@ruSaaSjM&}LJ*|0
z_=7r^Ygpj|gb8Hn;b0bxXX)|%LIfx4TquD5Ugt*Z*l?iL)iTqPvh7Z^eQPUUr4ZYg
zF*U5KNWW|=mxm5as~Tcp=Ny49UL%}`!7c#BvEs88h7c;R%0-!TFYh^A$Y?gBdbYU{
z4a=9CTT$y7V48$iVAZPt0|2i9R02T0f|C9?NCH3rAP&%tlf^d8Ac%u_XUhm0#Ftv$
zLw&NdwMdQpxS{Qgu@|(tAn>iWD&ynr=#~H2c7aB{@`>X&X_Y?Y!j~Efu&&drGHlBx
z`KivEG#bHwe(vQ0#Ze*HD*@;SZ~(lFyPmH;3ZD49T-Hx`1;PyiWaq=VHBZA7n8>Py
z$m`LpdMGj~-+SIh(`5*M-SwtQHMI--PVK^(dJbFEdZbcD(U&;<$Zb-INW{gL^W{%Y
zlp&<W$rrhD#co#RuL}wivCA`$qsZ!l15w}D_-H`r$J*{@bQ!mIcjOz*QuAMIj@hP}
zCfuC1l_qVaDO;I*t-Dx-dhvWu1HtcmI?#$--ut<uVnI!!42+IujsAcTJnxGI&j+Hy
z&moZy2`tcA)%cHt#Djk9In<AP$12JCsj-CdW1!3f^y8}V3n+pwgug)#<<3Z_4*g5U
zuOozv_}w>(je0^-k>9$g!uQ`O!IIm7*ShV>2GDqBD*uVC*xVRKEviEX+}&V9YJC5c
zy-*WpVrF7PX(GCda#9?Ln$QkBbD^kHwUbQw)n_Y6M2w#iwG(6<*T!r)CPj%VQG1u(
zT&IiKx91sAw>_^H^?2WeqgJ!!0Z}n9tTa(C(u<mHt|8{y(uCX)D=Duce7n)5qC&+`
za+YCw%S_xT>O#9opsswA$b{gS|98Xp)pn<1elxXp>Xk{704uT~9*nz8eyv}-sJjbW
zN!l5bN<1%aCL2%%`aLF*B?V;m>mgp!8=zk_-erJIxE9e6s#e0(hxS45V7H>%>f<{^
zDpU(P#zH=T!t!pjM$n>ZD|yi<?(nmI_9{J0HxuhOE~%;50mTskqBSh$ZE;UhyxDh{
zgp0>*b~!n*o7Nm5q=_T=>mvTe!GOmf93Bn`fp9G7iv|2O0(_(_>dvBe;Up1zc=~Zc
zJ|TTXbiy41T|y5*zCby8xG-L%(ST|NAB{WDdO`dZ0Gw6j-pQJUfZ}i{Fc6OTNxlD;
zsIrEUKx|+%;DZD3OW-~Q@GgK1&<)T>fVbvO;jdxh0|4dj_zX|Qx%R9n77@Y&fziMi
z$tZV?>;cYcfZqea(aE9#;Y%1OM`)HvQ7ZwD((o_h^>z8=+(czk4O7%=31#8Z=Axvz
zC}l2A)P8F&CAYZ#ILhcc$Td!cWiq3||A-gVushy9ef{)XXVPqGk}XZKWfGln7TnUl
zuT5C*6x=S5MkMuj_R9IDl>Lxoz)ctTOgakZh7$ED2QQg63{<`+p-zmZ><1)6MrTdy
zN|L&grIKY`$%?N2JB$6D(2{k<a!_J6OjMrb?Y`@M@0^<zXGDB45xaBo_Qh2B;pO~>
z6x&GrTHI;N-lS!3%2FdS8O}NDo$;nQKFRU-tjipq;+oeejegRLq;{fBb7e`cEOBnh
z|3%L-SC-<u*E^(Rl8~|PoUNXzPB8QB_d=P9%K63xHp5rVdlz=CGL+4;PSLhTsclt5
z*_^Zd3_s^hyALMa2bX$M?xvLWh}4#Gx^L;<*C&RStm)cg$=YLIl%{H*S>FHboId63
z?3JFDqCc&b&P{i&vKqY?ZE%#uK39_HSTR>F>nepR@?l5~LRoh4Ocylr9Q^;MtrzD_
zI*orKON0!-_sWX~)g$y_@8roEC&RBD@-U^V#}Rd?iA1=r>d-OVT9?JZuxkZ6hF#BZ
zWU3VBLZAHAWFaCq?+;Ve=#=cZ^d*fJ@LzvYO{OeYTF|I`;))HSAILujj)Ny^f^Cb0
zqcLANR^#`@d{^;XS7!*9sB!HzC%Pefuf0lMNW36<3|U=x^C7{1kSY+y52c^+|1-O*
zkOH{KJ>kkrZFm4<fR}LgdJTGj_0vbu-|#cj^~OO^DS1D@Z%!AYhxp^^lb+X1s7h+v
VprGG4zOx^pVk!Dh3VJ2u{{ZtAa-0AF

delta 1841
zcmaKsZ%k8H6u^65U)x9jQ2w-11q7-B4}=270SN^s)2KKNp$e$eHTFT<wFO`6AIu{%
zbm8G(%1+`))CA|^Of(D2%M#*;ZGLsxpq5zdX5wbDWXoKLvJZ1hwtHR`w-4L>@Vn=n
zcka38+<V_yy2MOgU^2h5Sd1Dv-v0GOprPT@%vn=WwaecZ7F>RBBwBS`5F>)<>J7wP
zM~-@ZVIk^Q9+~oOgjfD5njvJLGE-7)AU(?c^3O?L4-F&+5j7M%E3QSkNBN|pj1WIe
zpRg%ESDx0}L)4t&B8Q^haDPY;{pb~h!Mgl<L0y0dqYu*)NRj>&(_bS-(t1rag9^nj
zhRCC@4`%BM$P@Ubu4R>b!VN7`8}8<oE^3ISalzd1R7>Z%+)`!hhO^p+C@zRm?Bey}
zQB+nVFr{=NEhu3Tyf&SGIwyszFVyLur&`(6NCZV_Y9Sl<qo-LsfUDj>97G&KR3Pvq
zMD<|$P&$I}!F_k3-ix9a{&e>eFZh}-kWS@~<|39HhWyq8CJ%m1Zw<q(m8O>`<56Z>
z2N>c}>b72Dh!JMDRl+yhcxBCYs`kK_ZJn#s(1jSmiReP)A@)M;&MG&?<}=gP{bL_=
z7^9%a9!am+j3x|`Vh{I)qA6DFJFZ;ZnaeOgYG8WT2%KME2wl5vaD8_+%_Lrst9-q?
zl+^1*H?G`-7(%S0NNIg_0a2zBuY0+7iVM7W2VLN5Zz2H*wQo`Gw6E3@5B%h5pmgrp
zLgp0zo?Ch4JWEp%LZOt&Cy0S#-dNz65EVbfJ+5M8CZ+B72gEMe5pE-0a3Nel*WV6L
znLa|7YltogMP4TnxD}ZtPnENM+d1+~nLkblF~GeOB``Od!8{?bY3~|_k>HEdcIY3l
zz~P2`c94}=m{?x`wnjTqB_?Quxq%goq=(zv3w8|}B!iEvq`UZ-x60{WI-gcDoTU1o
zA!enMIwWel!KCFueJuOAStIEr{j!~tIGAp<!9y)qKr}J?vJ-cMJYUL6Trdy5=WSUx
z*=1t}HLk>)ux2dVjFKjpkG49aL~iPq_b|oqji^I1Nvy=&)Zfsi^$rbh@Yd5LA)akl
zE=g+`9y3mn_7r(d?4Tk~#LsZjis}=>8y0iXV1?#WMW^nf&LS|P=s@TYdk}jO?TAha
z`v0h%0^^An5$fAjLl&S~N|DkDv4MUe{f^Zay%|4sQ$)=aFIoc5A`d%<%DQrBuZTXT
z--a}cPEBS`(o!6^6elcBnOVrpIp-hszZ;ab3t6@gj1xvM%en<eVbW0^ca$d_6-kFH
z?r=@pleMqLYhO*&wkB)a;<asZugt>Zp>?Nn9Fw_|LLz6aY*;dCRuoUMQ@sg$wQOAA
za*~`g&N=6~wclmg&j%A(C9-bOsL5KDwDNH)Ka(?O<rCH>nO!iiNSe#y=CbQ-!dxYj
zMUG~9u6wlm{E?}Ba(BW~BQr~!Cd)qQoZ2$uoVU8?IJa0yE8=0}aQ6QH?>g$eyhEME
zNyKG@dgk*e-9vnfa3L^gx|`ySh@Eg{xI<^t@lUGZ_u(RAt*$xk(y2I47ZUnYZ8}p$
zb|{fEcNp?9G>%kJQ}0MKc~iMIl1s=V$jY|aFoTnp*1kwI=8eRvecqUN0Dh1ss4x8t
z@~DFhDOW}h(r)(tSg}q#M*X2;telKM$Jphf|13`}$^+K%LgNF>7O@px8LuV}Kp1zE
zhj4X#Bd>NrwHnpw-(^1In!<g)qamSLTm<r7N3q9Dn&s9d4bDpuM>ioQa`ZP1&T8d<
E1AleecK`qY

diff --git a/src/__pycache__/mesh.cpython-312.pyc b/src/__pycache__/mesh.cpython-312.pyc
index 30b4dbee2ff34256e1203f57e30527a6350a9b09..0e547a5fa6f8da1e80f8dc2e98e1459d3257cb14 100644
GIT binary patch
delta 27111
zcmcJ2d3;nw^7wSmk(o^HOzvxvKwy9zBoH8634~J!H!6o=$P5t3#hVZyP6&uf&>(@Q
zGze-~btR$#Mjdojz-wJaNjN0VmsLDg_wWdTMcwbN{;KND5rXdL`_FIuP<gLkcXf4j
zU0vPp`MVzD6TcWk-VY8ARKf2p>6g_{Ts;<|<?Os{;xDnS^80)aTO=o`8(F;kh<XmY
zB7d*m#-5eeYwlsI<^O0lvP}7)E<U7%Ny$#t60TA;s2a3#k=iVu&_=PJ<qO*3><ihb
z%Vs;FVw5~vr(+rNt-9&FO0*x;#c6fn*^<4cy8UBgF^kax6?yRQ>TCeFsF+HqoT{bC
z@={~GD4)bla@GL7+-MAlFl$sBRnMx|GbsRSTGWzWz9)F@fCRYttLn$is<UAQN7EjR
z-#g)nfTw~E23-u#><laT$)SPgclFEI9r9O$a@~IblfMnQ%%bHFL&vfhIVfy78z5JQ
z-DxN|&d!GwoDVK&zZxd7;9cxexT$519KCnw?gUwic$D>T505;<f-?c7TWz)3+PIW0
ze`}h~a^;axli6^&F=`ZCXJ^OBXQO85u%0wr?iYOv6xKwq&<)0dEcsIOAl*>B%$0*;
zhGpg8<p=}?2*w~7hhP+fTm-=gECl4Lm`oiNTG|iBycNh|<rQgrB8R|3x2|+Wg>|Jv
z3d5Qs<k0jprfj@if)4{E`^t3{R!Pd2d(tPfoc2-uCUKVA-k9+x4VxlQ8@zD#T&#@q
zAT36)2tf&gSpeKYtE`UFvQ_03HpyP))=Ji@m3GODk8j1thL!eO<*{4ssFf@lDZBmq
z!A~-lE5e@R1@f89Y0-o`3u-$U0JAc#rE*qQwzt;atXra~%f7W1%0Fcd2XeEsW0`RZ
z_Bsv0RC#XBI3Ryl&LB2beih&}`Rkk!!8Q00yR+aN4IY}n?vSSpJ?8BuFE>X=qs@}d
zc_z6bH^=)V(;X)Nn41<o2NCoo;&wSFFB574x;S=7J~l61-k+DshRRzyqea8lJd`EM
zCz=vP<JUYewn5|6IQg1l9Bp%gQ`5kklQk+Q7oo55D0%!btvq5_|KNP2Q6t@s-POqD
z!^{(D%COk2wb^TGS4nkv&1?=-6*K-6zTE@2^`Y}6yFIHGKq*yz2^i}rl}`^V)F0~C
zVd{6zlr4u2Pw<ZJOlF{5J$$@wCbR`fd|`N&ZX;fL<|r+HjBbYV$d*5m#H>s$5B<m_
zpUUq5F7F;OBx5N)rzs)^5+-Z|8cCEd$LCi0%MtgI)W?Z4$C*yPZ)8OjRrR;@bYvX0
z(o5a5qc%lPr|tpt7Lj>!Q9%|=eoeu*YL+kGF)n@?GDwmESOQ2qrD0g$L_oqz3Pn<I
zH<Y#M6ykiXqzAF)G6cw8hYkSo*2CNpa@V-GZ~z5y?JtcF;WKw*)rSCB^h$rIqHdjJ
zudJ@K_v)8)*w?SL2Ws7fyg&}0&<V&JU${dqn)qf6s+TkzYl1ZeGL-opBPSFWL#<`S
z-zDCHHOMmDRLv=`p0tRn#kGGjX%s8i3UxuEh!y^J$Q17s5f_$0fkO=dhOKnCSe`Rw
z3ywKDPX1=fo*}4Z&;+$eLPTyos<>2LU3-&aJSsmowb&~!2UnQdgQoqN2crQ4{WBth
zI{Er74<(_cP{wf^J_8$p1y%(4D$)2Xk7hOUi5Y)U#v{Kz^B?JGyvV|!we{A%fl-ot
zx?~whN9L^Oc{Yx|1Q62{__}lJB|A)$!*28TNj!Ma)92mo{pXHl!;z+&hKBun)U3*9
z{=SBZlD1&=T$wrJ<fHS>f_iM7pW2_)gCvkTCvop<M)t~ontz+ZEhcxaF}06ga4RcZ
zhUiKW5I<t!s>Gs`=3xmK5ygxvwpM4Ysj*ktBx0h6Ep_tQh0Pv0*l=q-8==@oXb4D9
z2c*3>AW`NO+2j=q>b6d{-2MTe*|9&aJ#5i<rdx)stnz}zvj-C?YkgRVC>rI{y|B=H
zt&=+zzXVgVZHY;<6jjY)kTlrP48X0fsjhJc0I0C9sFhN%+^;chcsm9FC^pWwTf26h
zeVrZT1Fkid)i%3ZQw31b;5xar6{O92w`L~I=y7a~GSH@xUcqZZ+!v>UEXc8LIayBh
zni95j>niNlI=e%9x&6=fnY`e6M8xP3PQ{~$kgy_sy_9|g*7FE6k@2!@TlI#=QM4D9
zKh6dsD(Ni%ljmEszm4f_*|_E;u)q6cocxzHJ%gxA8iSwjlD{{10E8iu-2oKKtWtQ?
z=K0F+V~9fXDmQ4pe7vg7BP4fL&tbv78WhWXTyqE>o;VQ4vf2-<)iL8jr+N#k8tr6T
zEa2mk#inW&AfJ`uOg8m1y2EI#;Kx+WF&b4>m^k@&mMSMY9*zn)jJ`^F6c2G5+sG_>
z`F+QLV4NChDga=sEdS`3lud;Cr=Ro(`Kd%h&%l*Cpsd;ox?2UNH(Rc#O=ETP&e}}2
zRDP}Y{rDo*GO5cHCuZ!L(VBdGSj&tHrot;~7GA{U1M8eHoVdEQ#$(u{x}-#+8P%4Q
zl+2%O86b_vehLv3A(((52f=y-M9M<Ex&r})L&PuiywY|A_aoSWU?&1n5I^xgDQQ%E
zl7BLB3KgYXf>)%Os6-NuS2}`#<m?n){Sm=?2+klli{K*!pCUjb+bc>Wr9^N7{yDk;
z+^xDIk6Qnc5;PXe2V>&otPT6v{PuS@Br-Nx{>#P{6XKyBgpa5V4ru}2sLQKrJ+{)V
zrE+&bm8Zf5M2+eUuEXOya^xNLC_88jXWdzrV1}pCR|xtVza{bqcji&e6EVcE^HA#s
zdp=LT=$r;MQX9^XzZ+2?zrC~sm#vc^{;XBP9SKQs8>;N<mHR$a-762<v=q$H?oB}&
zk^!23sU4A`@Xntsy#RkoEJnpTJ&6y9YBEY@ynPYDO9=cz`m6SY%!K5^nlB@u2%`?J
z9JpXH%WbVe?3MOGTSsbgUd8963a`PH$Iy{clHB-+tQbz9g6Sj}xhQr@KD2EIdjm~F
z`>dwnypVW9(nhl4lQt5z-Vu-6fKI!VtR|864x+A;-@5M#uo>~4xnE|<e}Ym_3#}rU
zgpLq9vG(Hj%{$^Dm`BIJdgK=$7zPpb(Emx6^*d8pmON<ZB25*jx%}Y+32N4Shy1&p
zznf{shQvQ&-HjGZIt@?z%ooacec0q`uxPbeE6S^EL~|w>6GyGQtL2V_UB#DU60U`-
zLL*uR++VSG=>1jQ5vnj#lM(zdj>EhwnCVd?Fzk>|Iiuw1yN9ru^7`FrQ;^@2L5$4s
zSDEC4ctu<s4p%qGAQD_3>7k_e!lziiynCwGvQLnQurX%DLPDd*tFI9}4&VlSsPMj#
z`BqAE<)<IKy;s=8#>mMJeIqY>Xr6rgp84Zx3P{#aFkxb{5qCZU6fU>kyBZ@k=(|3+
zTmEKGtZpeX@1Ptgw#j2f5(hq^XFn;z*vweKfo_e+E=H_03hIz-+7c|gNj(=pX?>`N
zHQ;{8DAdVG`xbcF(!6gxOEp6^1tA%`op5_Ypm9O|=Ha1ivz)xYilpj!vxL^F1ZK`B
z*xm*-<O{O(zyP*G-hKerfhP{Uqz<NvXa!M)z%wMV3!o|%_K^HuYpKFltw=r1P3;p8
zYBU*SO-W&hvm}&9kW9i;;Kft<WIx?WET-T>KKx`1IGi`1{JHl;y(C}y{g{B!ko-_P
z)$(TrQQ`a<^<f6BupwuvjT*V=DYHgm%@$F3gquUQu;$TNjPB5)ZLfZ68aI;-K$#@U
zh#sPhTsFiL@`r6H?4<l%TY>JBj+7wl>C6EkhNPzAuF%Mfq2|s|b8A&csQG;8@GE*%
zY*JTvlt|u{+!}H|9Qg5cd~6a_?oI|3QC!4jpw7Zeq+{}<Pn+kAM_LOJ6d~}tKbm+l
z&iCR2vI0cnHN3r!09947h<;zTKn^{e6xGKe&Bu!K<)XtAOeU@AYL-zO*ORE%_P-h(
zqc!*B%HnWNV2;*9-~9H@!<V=YB~yx%+n=lIZ^lcs#_q_{g?6ddzM-_Vth!pVl~-A7
z?a~l@JWHN@WI`S(M<U**1GsT%lLIC7p-TI#($ey(^4ii;9w7hW$ae4Iv+-!2rLV6-
zZ1oYIX8v9sY4ZOZjq^6lJ~lSBZ$qS@KG4(9R$gh5cN~k+=0a(SY|V?7PaNyYoCSBv
zs`V!8gECrg^fa%uN^5fDx1P@hHCa|1Cx^9PA4YA*A%eXKZbE>vTp#Q~u&xSGjFSsq
zfaPR+;|pe%`S7o{LfNYi^Ry~=lwvcxZLWO!MPGX4wJ!oi!L2M%u9>cv=e;x>O#k+m
zvW+%yaZ)29&6UT0oGbtHrJ*ca9^e`ivj(1A4T2||Ro!}3az>Npf<E43g=E)QE#$8{
zU%glEcvUMedF^5fGEOl_2DozTr&Ylu*I6s1aL_Gjm^}COei1b1W~}%T081d~Nz?0l
znADzfq60k?I08P5iO%DYDkwUYn_R1gYV>nzyeevAYX$;>IZh_8btG~~V6x|<V~bTw
zVU8%L$x*SL+B!_$7{#fDkS{zrE7+I>g_=4Bg=r%DKP*O!|CAYHn}<PSM>9`V28v&%
zZcsPy^`K_;Pl>fZvMBk$soj|rZh!@+VVHp!cMy7kI*{n{GKjfwBobO)u*cc*s5g>A
zG3u47V9lze59GyfSag2?W;!01?|Wlh<0Wu`Bkyn6Ydss90*p;axfnmVGk);7_{^4o
zu0-?2#GKB=oE{YqAH1u$rKn|XS4`~QDZ8DA*pa}tz@x)13><lU&dF70$Ch-(njZ_@
z7kY?Yh#l0eh5Fq(l_{}l)=yU>Rk2f;BM^vsG<bqZ_lyPrC12av{N<LA-;SPrO4v88
znTV5UMv#M`KY~8y0;gR<a817D%_42QHc`rL-}UB^0NoONQYsg{AIb9D7rmdrl8dnf
zRoflp=*>)WXd`9$^xaA_Z4CA^7C{~Wx4s6F0p-=}9By^hhFZ6#c71u3v<z`s5h(rO
z)p7*+@}dt?W66MoPqkL8m}FaN_nDBtx62=_@})TQ&y?s2v70RUzB3l%6riKGQgolm
zf+RsoM@~oyK1s!zXc9ztDUWV<biBqhkUnV=0zb_@et83cJbB@{JJ^Eu7taNGx-OP=
z7sia~YlIL*eXx(_<yME?0Ucirfj&ta!%REx+<s>V>Lcc85sOLw=)%CPzL=1Ay)dn^
zTW$3?gc77wNf=G~s4{;h-p)qQ7eOu}i1LxrTlBZcS3WZLa;@^<i(gxOn7k2yj~zGK
z^#XZxS3GNy7j_kT&2eYf=sa+=H`9Q;?KOxpdqu_WUV|9_acS^;r~>f^d6GQ&^5?Pg
zn;*wV??a|x5{sA?lhCBu0r94i)y{P1=1usu-f$9o^@cLm+N(D-<ey9mkX`eV+RwOC
z*aY7IB}C^X0<qi>M;0MklaG;BhogKYEXx4<Q*zFw+rj!__U`dZlXbU4O%TNIFAWVl
zh8^FE_b6^<O3tbH&mnvaIoju-5b`sLSiuR`%3_tIa3S7~#0R84L?n`ct1<b3Pt9zS
zeB{#{c3i&v>FeGJc<qY_xp1CV?!G)+Hy)d2$%8*jH@@F%^o3vc$hUmHD$|dYDo%vj
z?oiK|yh_^UnGXoOKhI@n<;X9p{XNZy9!EU@nZ5JH6XldIqm7?oj~j6Wx$T8tE@z2;
z9#gC3*mMN|<o51MQ7JaKu8-}@TrVMim3#hD16}`ej>WY*zxqVoh};8CEW<8{T~@qG
zL5#slK@Aq%jexjI;~jvvL<-qSGI-%wMtnx@Qj!n-8kD*NadJx?H5KKxgwxGybKu`l
zH`mlvN@?<+|K2a^2vn>O@exjye`t^X$84tY85nu<H~+RE#U+X_(nx&>LE^k}mnJ{?
zZ5H_U^WUOKWqo%fE*fdkRY25Lu@Vz-Ql*3(hsnME-2gU1PX2y?zpwVv@3*ncIA{Wa
zxqqlMd_*KAAy|j)>#$e!d68G9v2pU!D{CP}Idf${5A(U|z%{T|mzw0Cdxo|jzBYnG
z$neGWA+Q-4_JcW<=D^T*EJRu=b`mYm`5`8WIH{|thNK2q{o3jZX(M)?jUZjV=LZ{`
z-v0L=vY1wOwoW?Rp7c{1Sl0H!e|@8&NtW)0im)^el>F598CDb2aBIt?Y6o;+tFCpc
zE3F#<lvjBtQUlDhOZQ_vCb`*KX(#qxfuIt>0|*)bkjpiDej-c9^m6+z1+1z4yI=0}
z#5e4^?5s`~FEO@8EH&{+QD|m?yw)gh`A@Pq^(sq}OBV&;ed>Rb#JRaVNwlW1M3K|Y
z^tyWR=n(Jx+>>I|LO_Ih5ct8pImCZk5B5&%vNE$+sAtil<qR`~Ls3J3Q|Am=!RLXb
zSWD%#PmOb}R<i}%7TC*SB>+091xG{E;Aa`hyNnOk1Hfz^)N}_x8rBX@)y?Zbu<M4>
zthm{FOcOiY+V$nO+EwVcRAQix73kgpg>k$kR_WNJr9rCT@SP>wOU?x)HnB@VAv>pT
zpV~54+_CG9b5Z@z1!X)FaU`}a_Gmws<(Q>?@WtF|ow?J_<=%46GNUtSMiaZHQ-y}_
zT(Nyc%bb?A_pdpS_E^TgjMnhhq5B7ShV&OafMqC-DPT`EGr1-Nuq_4_E8YrYV_CZ3
z;cS`?Wn79AbHZ6lBMmeL3m(KVK7@dDjO3moTR&@3v7S$c+yUi|vWjYlU5dx@g9uPZ
z+}e6Oh?FH%VU=bBEM45XN^6aywpw}$JNP|<HUzPU0J>R~BHHy>bSDC*2#8?w*gsv1
zBUlA*M2hE^luVZL;bEIrdK~^thMy(*zXWuMhvJZ1@QTQ$L7`ul3J~NWScrfuA(^oy
zc)JXN&(un{pplo*(kf|A5)l*!X%hkxn|*k75Wz77qmUbD$CPa<GLs0p#I7i|KWT_I
zzWWZQ8Z@jcGq)>y*fs4kt_@P^k7Q!Z-&m~68qKUsHyKgHig#n!uwKDrJlg9Lh%;z{
z2ss9O;1II~>@}zKs>)NCIPnGSQRRruu`HVH7b2Fe00RkGPZ1NxHYE5tb5jH)o{nSj
ztWCTf$NE7NI3ys{@oYD{N9>7b{dLE2q>qbJ@hpcO6+Q869Jm_TXZ}2xNJ568aTex8
z=-4JkB(fxSTr5ZgQKWiziKryDG?6N!Pm}BbZU`M#hzF8j+xiW0D2a_x<XR)cUY+ab
zB(@Xf`hfu~w{a^n31tFg4wa5#@m@2IOL2+jFcEv{kKlGJBUdNk6-~B3kXQm`kYFWU
z*VdHR!S<mWs~rab5%_XRQFu*_wOn#XXl?5%D>p*=xwcMv6_FQ<oNYkd%7LsuJMG#r
zkZn*a#B*WZ30j#lguTFTaK)vF-HHIaE&*Rm(?ZsVq!x=M%0`m&O~-C1+i@#CAa}hG
zuSiO9NFEceEDgwWkY+uH4cB2!|HQkEV9vnJD67^wcqmeJ%#=XVULWFJ&t{R2z6(sM
zW1#r<3Y#vz%4VN?W`(THxh5ua*Sb9R39Fz<(Lrx*p_1Q(kZnPu<JMV~(-^5p%NPVs
z1eiv0>+Bn9VXx2~2vn6S9<Wy?`yke91JD*sGbC*nCx)|_lr(IrfhG<`vvD9`q+kaW
z!e%K${Bt-Pz)p*#d=|@Ibmix>mADkaa}h4r2v)94h_nSro(!7QhyOmprF)@*L{x8s
zD?C(EXRp9;0Lj{p5B=OmlB7;3yJ<fijYfT}kF{mhRkh-=0%m0Y5r+%d7B69wN3*Zh
zAWB)|+4zDRN$Ty3XoUW5$&fmclvV_fF}bBSiX9ZMjc3U$UR)Z_&aqtA(L(m2PKgzs
z#A@hONsXi@@RqDJ*=sb?WUrx1;)5A$zJjGBpa=1moB+<Ogh7xcOyS2fSm{{=zk<%K
zUv2GQR=vF3TICK{1v`RpA(4RkhjIkl9u;X*nS~t_Gp4cxHpR7SDobOHXkLNu9_LUp
z8Iy!)1!%o5UB;&YK34(GBJ{VN1^EOT5b4hf#PSw`BRHVbctuvew}A(**~`L{LLv~t
zJe{o!AlskrvE{#?&fZankqR$EgjNL0g|mc>hPgdn!bUU}V-Xs0<s=kwlWZAUN4K$b
z6)fXRG30QN$8rZ%^)4dAKvWa`Bq(S$+>vFg>}6|8AsmO~<H}OVLE0s+VGHbqGxbK|
z+?thAxy{X2+1*;`2s&LScFtlJ6H-_oJP{Pimrpq3Iz5Yx#~@GHNXwJ|eLf7&3W@KQ
zut2eX4vWq+<G?-zf^J%6Uxvc^a6;I7L_AoWoCEHH(ud-QIjqx&H5D9>LwLw?xgl5t
z%wv;5Rq(KuXqv||bxI%N5A#@FSVS;1*n&OdWWb>ybQ}@$p+(|1h|9+%Tp40D3zj}8
zY8S9+EKa<>fUWm04_vbrg6NG~4OO7Jzdb1cvf8sF=GIsxyH)xQQIQmrE-FC{lMl9<
z!mhxhdIOCZtLBN*x3Y#_9hKe2K4v8-)yk@;jRDRL<qnCK4O&G5NnlCaC}hLntxYjO
zZoXk-FAJoY0&(9WHjIrICl;|5;MeTM>~t2=;Yn4vgS`S`m!xV*!bdkIEj|;|m%wz)
z5UZ9jIMoCz_7w5b61GrBvyvquma@TYff%=xCDNRw3g=Sx#>D>xMAF|8AhW%R5i2qq
zIdo$msDJgL#29a~#lB&Q*m4J(<Y$k#d<Xloz{h{@;*YSQ0rPI|QuaoXD=#ukTH3|W
zrEC@t(d<cva2Nu;z2Of#S%Y?^szK+3rGi1_43M{+jTSj)xq<1$mCZaxoOqra=xE$#
zR<#)p$f+m~o8jbJ(wsVBEn^eax_K(m`46bu{cjee)xesAiBowzQ5>^EKZQRtgZQ(R
z4WO%dn;K`gfi*t~-3DT}PHhA8bv<f1gB`*DYu8%n+8HQ@_Ty3im(GKHoj>K&$wjZ2
zcx}Q%f98q0UZaTvlp7f(hIxZwy^<oPD_2_?8=`4^0mz4Bs?R<t@iT?fV{mRMMEM@3
z(;bY=ud<h~T(!Jfa*)?n(h6p*N0He3P*0-GLM7mmPGCVkKA(gr^xo!fL-l$H2g>Ub
zV5tiG=U$}LFA9L0S1lLIR<Wp92d2Kv{+|+s|H4GeDi$431BSsdm5XOrv6Z^yrfFTV
z@gl066{W`}cEk+m%FO>LWoD~%Jnh7gmxr9Jy-+aYcl>P1%#PTZT?zffZRKokbe<|Q
zrn^9u-oGO#r7JQ9wzf=3O_RhQ%Gvn;6Ow-e5}krX%wNsM6yM5KAp?Hu8KyFqu%CJg
znesPT6+4+Z`oUP<Fhx%psd;0t2H@K~ddgVM+i@Cze~gKq$~Aw?(f|}Gr+KvNt<?~N
z$<A*B8_8h!;u*i=CbMxbG8qGyU$tc+y`q`>u+nt|6wPGd#5Ch=CxTx$bTAho;&LS$
zkU(*ciIf^+94ka;o`~+MNULI9U@gvEiF28%*(pY;JxEz-dIgN6>HDB3ukqO9?e#|E
zu}_4rWvLL{<gI1Pl+Zv!5e=N1v9QU?0c<91MobaE9SB@T>}0U0W0YaChSCps^%(-P
zX%s7v5&i|s{7b-5$Q~1Ue~>bj)DIsccu!<VY<g@V*QQ>btm&tXxmv=Kv{6b3(N75!
zW>1GELS<JiVm8$xZexqowm_TuZnj8c)7-6Eq_r7sTDa4}Umg4numwP=-WFuj!=1sP
z!vAc+HUr!RZse8_*Iy+DN1{RiE&Vnc<k?>*i<nwAzIUOp*0Q^DoRBE7Y3re)O;-<F
zw`im=mcySd025jbhFZ)O(62U5JYZl+B4-^lja8loIs+xO(*XO&l{S5YmZ_Xtr>eA9
z=dk0{rvz3hlf{;GET{3t07Uu%I-ajcFw(Iy{O_4t_KCG)Czn7RXND4mvlKBo@s<`2
zL9hcT*~@C-oOgxYf85C(;xDK3<P<N_G9Gham?0~Ileuu|4leaqt+0DSCFyglwG6wl
zB0%D#AYh2HlKK*FzY=Tf*w7>jkizGzv)V}Jz5BM~fD4X6;zS+07`=CSYieuJ!SvR(
z2V?fFITt_Z(1OnRT=DpNR^*LkQZ}$WmL=wGV1tZ{p{Zv}Mtry#7Aprgu(O^V-*Z5X
zB~Dozk%E&*lKDj~hqH%v2&qYwDUzk7wuD2VMddOi99L2j$^AsU)nGfFR9%Z()f9#r
zaG?HW<_N5x7>#w&K1-Nh@rL{PLca+@^Y6sqO)POBE;Av9gtYIfT=<s<|Ax8M7){pU
z6a6Z?ayV7wKv?fd2>Uoki_PV($2PGnIP#AtKmu`a@Tvvdyh$!vkgS27&o%Og`{PB6
zn;Er`DQSRn-+LhO2e)v(eJxMZY-Y_Sk=nzf<;w#MqLH(NKsfoAr%^Re)u?3i!{&hI
zN{y;ENF{$ZAVIVyFiqn#+?!s6lMl?Iu0I#(^&`dh3VW^HY^|s;!-6@p45DC%c_5yp
zUN4oygZX%_-A0vsr*17n%(d0v1Xsa(2kXmgSNV`Z31Oj_9&lDytu#YfqZ!c-aF~}@
zudA|IrHw<(j%s*dtu=c+9t84K$zirt`_NTY*P7vAH`rG**x4%30lN))HY?=Vlm=P8
z>R=N|lp$&*>7WF{D=;gK%A_vAnSBOl8W$$sT|6rmki|EHOt|&H1!YYF2X<7%CB@NV
z!}?g?RQ6#>E9!y_RbX!_NEKx2FeY>*rCv<R=}gKw*O-*sqtXTsX)$z}Ef>xCo#y;=
z=8-)rb$CI`)UJL*F7_MV*>Cu{ej{L?II3W;zAGX9v9bHc?jPTokl&Tq@3EQtX6~PL
zF>yp^;)n~0qpoP7Qnwl!!+vvk{KYU!XPD(e*x+s>ba5?6WeC2gPwdnu?wx;VYKK1Y
zf_^xhHX<$KL0q2GlqQT@VB<VTG;U#&d97N^`Hn|2wK%hdSqvH*TM0JWrV;EewlztE
zmh&+14Syh;CJ;!iQ*R4!8lcL-yI4l}O}qN8(|55q)w4?!L-!*zB!5k7T3Bo^!U8jb
zj{vw0_NsN2b_o>|wcC?zT~SeOt)<kE*IHc^pWe#`>nO|fm<Zd(Qdlcyq~ah2Fnt?K
z)*Zzem?5gRv6kQ`$_@=amyzF*F`^@Wq%btGJ?Rh5+nWH%=nhl=&ajLoEo`obCGK6&
z5t`PaPgB-X8gII1mnQyQ6crE$&*?xN-u?-}2V&C>mJoj$uInRx!r)Ko{NQTeK{*&#
z!cMj}G7Rm!^rR14tT^yHmeu$;7CeDqHGsdNr1^6R5EM`=Kk(-&LX?$KDmEaq=;s-m
zuUKyig3uSZ17OpmymDP7T)<ijE|h%sVU`80(L!1Z`zAE{q_U~w=fwKQ+022oOY#8H
zoQAzq$b^XuT(yItfEg^WhAh<^;+x0W(CDN1gl}-T`9}B$yZd}&Ev&cmo?zc69fN1}
z(LUx$_7!$GNm^!yb1pR#T;rc)MTW-bp$<&_c<ibWK@oxp2*^E>qayQ93Vjf&D=7^`
z-ZxWC#vVZd%E)Ly0%vhK*Xpn8;<bZ%3N+fZt0AMc`B$ARSexHtE@o-k^s6O&D$|;}
z7xG>y?Tu<}oD$s_#OS}lf;#62yJP_~ttx3#LNmX6m$INo=^h-2Mp-@Nh~Y=skW5;a
z;~M*hv@ki@u(_U7KVBa@Q9N*zjik&=Nts53&w)(qXGhtm4D!{do@W;2h}KHc{X82I
zxe7Xjz6k$g$cMok-{puB#qE&to*_!xVQoNp0|k?~+|Is%WX%UJu<V#B<ZW*ZgOU6?
z5&0ry!k3HU7ujv#vc`X$CEkCL8T94Y7be0ly~xHjR)@i8@Px`{RacVPbG8U>p$620
zMgM1bqyO#s#7Io4L{NiZ6jWFEOaZ4I%MgsmelYXunZO>M4(2XG?0boY(8we^&dUIC
z`5mSaT`#e}rQqa%N-aZ-Rs`ta@y!&98*;>D7aKi@Smw)}xPxugD<Gt|OXLY|Xp8BN
zIGU@7xxS5F?`*9X(s4Es*o3<Z@V?byoiZ0<^UG`s%-FjxGkC*JZp?^tg}=gzJUiFn
zihH7!C$dYbNAMuf>ef}2A}M_nx2WF44}X4{tfyNKeq7nVq6laMAc8e55&?!55^V~$
zI>e8Ooc>bpOb!&z#3y89duh73{u;|*>qOG)kZa!Qn)Et@0Gz~#PB4hh6YTIL<SH<g
z=%+Z0xY>aCz}(z$DgYz2`ba<bDy?hmbadjlICT<)&6E2Ya*EB2uKhIx4Pxgh7L{-U
zgyAauL!YaMqm>s!(>p`cJM`&NuIt1p_BL-s>*^6eOf*T)0k8xqHk9Z?EmXor60vZ+
zCGL}5-GrUfh-e%bE_yOziVdtr^i>G55!4`93&0ToH6e7654Q%U9f9lmQ2%Ht27CwQ
z_&Pk<thyE=U;Z{vEPtDwTtZ8%GVB#Gz&heL?H>`j4r?MeC87^|>Z>_KJpzZ=^bQ-Y
z=!ir*;sPCcmK#w&lq_Ma*!w3oE_o{;1idAOK|@uW=b8%c5!e32Mhrtn5@Rhv?f?i5
zE8$H5g$Uv!$tQJ9Vo3HkN0hz?nR=(#^d5^ZMq0hQIrrf(Zd{GHLwy>ENAv6(q+vKr
z5?m5bT%OQ|PCWU8`iQwcf8tffFI<7|LxK=C1;(Fd2Q(Q(|90$)#NehC22ma@SSL$p
zq?sq-AmWI<{uPJ9RAj+_U2#ZJ*cmN1?!_yTA7uwwipGK%1e+1iz+&-=B2i-;UdAI>
zCw||_@?$(w<QpVOQF6HJY9}+oQo;p?VJ`8Blr@4@u)PXk@_bxZ`UmheK0v{CYaDB(
zT4nj)*OZ9li!8zDAAg%Dz6d*h*<$rYmYnh&&Vqj<LrKJ9nPND^Qx{n(-^}G@A0)8*
z#a9=>U@UQkbU}LBZxknrV;{qaWE|Z_05^ES-QwquSwCX~Xrgo{)=*L@li?gfK<Y{?
zK!@s)R~(NK%0NOr&gzrTSZWppM*d-wYauzL86?fwjhGZE6`7y2xT!B9E|LJ8b+8fH
zSb$jJFbS+$;6-Zemu3eA&}~%Sg(8Cr8*-ktQJr|;bJ#a%79W1j(%Cjw&*$tF4S3jR
zzh;@!4<M-?_pH#1eW0W6^ZLb3s8}EGmuSp4f<E|8ss2s$`zzZ>2_ea6E!xzikdPVr
zFJ^;G#QivU;y^QAVQ+oS2FWXePti~f0y=#W(@3qQr;d%*Mv6oTfE0sruM3=R4)^Zt
zul)zBZX_iORCe=eGKjn6<kFFqIXHMC#feu$3Rwlut|PVaxnyY>R<Z)PY1a`Ef&Tlp
z9TojomzMr0mVd*}gF6BJk8{obmVKx=T+;s%OJrZKx&*uM>jUw{?+2bnHW5+&w827b
zVZ+f-nt_rKv}1)^?_TrfSC{9Q8LE=~@(+yk{~g3p2iVA_#VDK9q5d(Ex~IGTdWAiP
znuGzw!K-W)pH21*DD!GOczdFeELI;E=N}qz9Ft3m82AU-CT_pZ`YT8HAH)Gagup)n
ze|(UJtpz^ai(s=jb{*DY_lx(hgU+vTUA@lCH|TuLk8DTGbA$~*ADuV-1ZOes5~F@%
z*-Buc!I#}#cm2c!3qVs=BK=;N|CgBypTfo(C;|8CdF9QcEx!5ht1S;iK$9A10%1a|
z$oVU)1P)?;HsIgvDP3b9dqS(O{m@GZu<{tv>*psKmNi&L=A@SqL1sLH4<1GE+r~tC
z44%Wew3<4_o~%<PL;Y54bPxfGfb=`OdK|$MT%_F1<G`NS)jXX&;o7d|dFq*m;2G@Z
z_X!S2q53E|$uOx_pNN{I8Nm<25Ww>kHGZ1bG_J(~{7Qs!qAFI*jpx=Fa-C3FkupfL
zP(hP;FP_h3uZW}sKF4Ur$K>o%#Kr_(l7r`X+`$ywK_p#XZ7VPHs>I7UxK|LQpy1Pq
zpEU790-x^Lj4hrxX@+kzcC~9kB0u8|IYn>`WW<Y;`MZtO4qXy#=vpi74md&%pWT4O
z4w-54Re!=xNEyhkYm}{cf9ad>9H{D37fY2>FQ~{$c#fLp)~v9W!BQ7S2E8nxR$(~q
zJ_sSzh=UJ=ToQckgVx1(h{CN^HoGy_acdEk<EG&F58`qPO!Z}<G4t(UyJj8ZajvJ#
zyjGiX9I5h81rA6doMiS*QINsMG@7v#722(bbB>N0r1y1fhy*CsjfD3-qyfG~;#g&c
z*~!5gA0SA9rm&fijcEMSM02U#Pzo6ZH~z71P_|3buv!rIrrk&n#XmE6XdER6&SDSh
z^3n}bH6V8L6?KjXv33)S6gdO9KJf$;)<@Aqd$QY@#V*A?`hUCT58%z(6dLQ3NH^3~
zNmucz*QmuWLwH3a%@xitIBgmu<&0CY0gan@p>b40z+=WjvVt^JnmLkK<cL=`)36dD
zC2S;PI6`H>WW2F8zJ-f3DE^)a2hm;=kkK`>F|M>M?hewCI0(T<^I`cYB=r&fCRN#H
zuiEG+FSAyZpsWT`lILG6O<IA--vyM49>4|6vZxphdY>rn9nCF}G(S3;4>g~`IwZ@V
zz*UL#Dc)a3kd5F?!N%~!FrxZ27SJHy7nxAni1Mhs5{VW9C%&cvMT2CaKh`EmC(DH#
zlTbbsh7F+xw_2qtNYWDf+=dlWb-ld`UiKg!TTF_)yoGrB_77!l-2hl0l-F)_>&mNE
zl*29tZg|0wQaHK+N{hPdR@c>TkS>Yu$MCU6VlqyF!=wmI>p@t}e|nMW;$MZ*`bd%*
zl$25+q_T8nrDIjOt7<Ht652>Q`6G^C3y$DB1SChKB+%M3xv%1b8?{?{4<2LqL_<*I
zX2m)<W<`NB2?DW{B*=`INRjncY2|uIh1=nPTXqx{H{<9uc*aD!1SlbfpEeVwagT7!
z<by<a1=ot-&E)ay9@lF#`Ma7tlG7|`iMux{k6Xk3>h&~IcyVnlj6tIP30iooDHFt6
z<nTr5qI)i1A71O^PPL8UC}}6ZLbiSsEzYdxx<DtDHfXAD$1Mi2DH;ycPNv77PU8XM
zvw6JG2)l69jBO0^J#mel&%a_yhUraVS;)tR`ME~yd{5LZ<o)w;?JptE@ugAX6Eeng
ze9WycFZIm6vAon)j>--eQBsReXq)sF)T|FzCbZYK`UV)U<3|yBEAKFb#_Y|#Zxg(5
zEIz*#Oe2Lq{3Lg!-p0o;IlPgE8PKSMZ9+XBJAgd(J&>o?*W!jb{hZofIc%6ddb7*`
z#}opc`gJPU+cUy(YQ0U1gTj9{141YZv<3Rg=!%#W3p;*>u_~v2HD;$gKXIgo8}<lp
zEVKnQ1Ta-q0paY^o^bZ*2XVrSY;(O>MUjK2JoFWhT<*cdV2?2XYCxz`<+-k6%`G_6
zoyIc05)Lyg1xgx>wUJ(GoJQ}6ck$*>4b*5bdftoU4I1C^2cy`(nB&2qzbxj16y5Pn
zCK*9^GoQ2v6$dnfCYR(NXIQZw7>!B&P|n|nGIyYI&XGPTf+rv-Ch#n%+(FCXU2@ng
zgI7nZ;C!6t&aEj&U73K3dUuGo3Yu)Y&8?xTp|D2)pSdcvg7DO#CE+WFVzZU72?zfI
z9QKu%gAi;#oLBi|3D4IZK?!<7#4qKKH-<*;Y~0?scT;C*R+FYHB%&)hy=higbiW=|
zVsLy5zou8E4my-|&OE9|6&;?uYidjJ-n6cmxV>|CZGg;DTq=Or#Jv;tO8X}7a<&%j
zYCNPlH1{ZLThL}aTGSSDHYWda;-EvrIudi>*u`UpeTLSw1HoN`vi6349GldwFH^-Q
z!v<;iKKs6e);ar<519@vKN``tqAl^LwJqgb+{mt8t%LUkKe6hN^mxVj*gPMKOdzW#
zOJz#`*c8`23W&Z^05@G>QQbvM6&l$+m5ER8;L$0wm@0nMPdz0}6*ks^Uh55g<fLfL
z+bm*If<}4a2;SQ87>xiix0KJ-7Q=xZhF=wl0L94!G2%`RSKz}NU{k1+=Oxh59veqZ
z@JbczI1Ypz$7~U|j4zJziO3D{$o6G?P$5YS8PpiHS7JzZD9}(=!*C`R#KLnXHX5si
z0#L$y@$E7`LT7=#9nXqER-WCMs0xek(8qNrs6rxk-nRX=`xosUdS59_QG8<4^e%V-
zGhsw$!iaMTFqzum*$iL9Oz%-?!r`(QYDJ}7ggqcr|5n>m)d#DOR&{1fI%(_7xaHlV
z&Ww@^rdd}EShZV?ZM(yizOJcNk%=9Nh36uQIy6B=kY9Y?%KxPw<RABPREHl?+{pov
zokV_-5|v1a;``NnHk%|0*YN2|+)7L!p7`92^t4Z@%-EK^F=^W=P%lfm;$<lUqR{Lt
zD&08*=Mh{008t-&%Li2qJ~jb|iRe-yo|1Oy%1f6ELk0gD&YxeY;4y51%TURKHIz(f
z)5F0M{7EiA_215x{sH^L2u^wp0eWTWBm$alwCNHJEgmQH4SX;P2SoWz%ILp{WeC29
zEk(y-m3U|^pO7|88{1RG%9%E(d!ag5tM5sU*2Z7W-N>{#O4}Ee6-tD}_p?TSc-m_f
z;pMqR!N}X#4b2FJ|AEvco$+#OY_KU!^tv_RmMRsmPu!-U$bgtI>xgb0uM2Q2z52A^
zC~3TDztSn?D=`p&^}cA_!QwqDo0$-C`&Kq@h^@8!If(M<uxG_OUf6Fm_VVko05t_l
zzZ4zoc+5;>rp2I4n0Lx_eHVojkThBu5~Y1+VI+2j;B_&qjt^80_>NR7FKgUc$G_6#
zpoq5_ZW{b=j$Q1!lP4I7<rG9O7p^;bzuTxMKOMwN(g0#OF^jT7#Cre!K_d2JMv#Mm
zax3$JB1p>NK?UiQ$aC`kmS3G8Y|wXR#1<z{gsqH6oqT09l2adwTpe2Mo09Kc2@O00
zPiMdjoMLe!x9KL(l!&(*`2aRleA~#AA>kUdnQu_Dt>T`oJfqRS<meMS7h%)8aSmFL
zoP&6E8n4h*wt2FQr2ijcsT-dY%_KP;SVlSBPQ1cZ6|S?&Z5yO>P(TJA^B`i--8>`~
z@z#fXhU4Fn9w}zu&3j-xaFW@z<Q{l;CY7j?u&*(Q7ugLvWW>Y+Sn!BAa4(<4D#Yja
z@=|CC=Tuyax53%bfhY~I%R|#bSWY1p)OYW33K~M5Xl~-Su?^xcO}xp|^|tMBx%^kU
zmgXaqNIyMaR#AvRN_?58z8_V=qigk%-ofIr5<CjNyn4ffV(tALzP~1ZzMsbho(I%$
zx<)JgAgtSXx<PH@6v0i9JKf2m5+XLS`vLe0<mImnqNbV0i->=~-BD9uSaS}3AOu2c
zH8t2LhEC<tiB5R?-s=LvM{WflX>e+!e4Dl*P|VuHQ^j`=aJ_i&0Uk*>b9V69P+dbH
z1a2eX(_F)CaQ$obpzoLnMB<6?0wLOSI1M8FA8^bE$k8|7gXC;vVpl4Z9QxXn+=rA7
zBE>g8rIVT-uKSGv#^V5+r+Wto{muUWHIS3N2BK>|ivw|eu#;cn(@T^r7>T$JW)#jz
z>J{Pg$%OLhg4<9;DE;P>I`6@de3Za4@!f7dCWusru#HfOq1)iI5Hn?-+V4qN<ip1$
zFavlcOBECYQ2_21rgVm;oDWUC92R{!G~TsU=A0|pM;(3)kQIp5hrn12M^VvA5M|Gk
zH+RN}%so6*zVhefJ$txLo_JfN{MP{{EbK4t8p;zy<sJw?-*^?W9Ic&j;Qxs|+$_%j
zgPTOx9sqa+YlI=b8sTEL0D++z6~a?P?0A<2iB`ciEYkI);P3ETa8M9`<62x{5OIXK
z<l~6KpfOlw7y?Xfcy}_0ON)_<OU1E=`9Kr4Qo?cHw=eR<w-57anfNJR2j;V3Z*rI_
zA$foQrqGX#(S4W}6W3z6Y>IWw-4A&WP;q>bev_$4d~kp_1`|nYKmj{5+2Zy`_`vLK
zh!w3PWMRYLjMC1)?SU8dah>|Oy;&FZ7IN<vj6Wt*{2`7$!uv1kli{3zqar6l28awP
zv4EICr&;g7A=(gN_kE*|argkiKScJUd~$jt(+=z|)~Kei8LVq~!BzEA1|P&JRO_{a
zlz3yD#}^)bl=llrp@6OsarpfkNR=nSFiBi}l8;IH4*H#}WEPC@(2_t7Rw27U%=kTz
z*I_j0juM4V9@VI9eEPj0ok}1t2n_QiRB0JSLnc=UAwPV{2cJ?p!i-l2KuM=Z-9dQR
zb1j_JtOUm<(M*s7x&>MRF@0R+1j@puAqonj$Y=XQCvwq$!T#1^l}R}E$q1$(z@bW^
zV!~5AjTH&|Q{2|er{?;7>K@mpPw_|8x(aNRCGI-R2O0kc!;`im)hIiuuCBxUer87h
z0!DyIl~5HN4N*%0FAaa4*!nCV#Ja_E&vL60HdT+TBCOER0pxhICk`mAk3jzbbo63~
z29QZ6q&rt6o`w|LC!+H?o^5jSXIL-8UV@7sICvQ&mTiHL>{K-yg0|$rr-Q-1!smqP
zLsL;VwupfiTBlat^1CQ%lg^r>;0*|k$DnKAvr~CaHNJl^PX!i`!y(M;^jRA5>=FK1
zA$@@g-+uK^7)A`<9Ez3}N6HHXWZy305bAKyIvliFym6EdX*9y<9L-PwN|vaKiWAd!
zO}}Uw+-Vwo)YM@be9n~LqY5@8dcInPrzKh^T?icns-2Jm>!j$Uj%Z6)LRw34S8`g*
zl&;kN7gKXPQ*)1NI#P4brH+LYi&1HNwOtA3iwQZM2{}ijE+mZT${4(N%EyVR-2v*P
zsI=|?RZMbcw52-)R?NGNR}!E*Ql&CA9<O6dMENm(a-168Ou;<OGr+Zg-^kPK_2g;v
z;9?EV08gGKz@~{4)-;v^DHurDh*UjG5jDw7Yrw3G9<nk4%6lVVLyf^OUEo)$<~Req
zb+MTT12)qHf#;JvEe-T~3rv|a;Gs@9Hiak}Jt#2mqJz56cqUXQh4{~n`}0dS9fb=F
z@-uH!ekQP2ekQOMEeQRbfnI4-@-q!a$VM4~BVE7|$V)+HM?)=#@}(Lmf^S$uMV&^~
z5Y(XQ)p3v)jZKSRxR!P~!Ex+krad2m2ig4sA08awtpOid3KU!JgbyLLK4dU71Vi#G
z7}zDV0Z}6CMINdRaR#nVm$yifaly`z!=Re@17-xn(RoZS1q1HRQXVxe#ETNL07KxY
zG0491bM_^NHScnAII#ReuMzR3;0AC&tNUYT@{VaiGoomCv6QFMK-P`fSc0nA4Ltv~
ztW}^df920)!IedCJpfdTgNu2BYvD_L3vYzaiz=&f9F3C6+6q^&_e++I3?n7H$l?N{
zJ((>33gmrMv<LA)5ZW0tUZG=E7U!gkHF*0d^nmGY_;f(6^4VNC=|M)CB4YBtA&B8i
zL>Puw5eOm?m=HuEz?HgN4e1a(N$x1Et+rKDGQ_QhmmVFV(34qoUWDl44=?lKIt%Li
zbaDM<UY?QEH<K0fYnd#u?iHRA-z(kJCs`$4hv$vGo(Jv=JP?FgEyzo?E<Yb@@#Unl
zp@W_rPfltybbn<W+`!S>taBNojt@PXF$VKfz+K2s&0wm`(I173ZjEWKZJDy8p(A8;
zlNvyGpei<@M-^|F&YGrl^&j$4Oy*wcVPX9PKe(!EaPCJ*(^}^qUGAzlR&jFJh5V@x
zFF%_!ttDU|+ZEV792<3yRE0%01^(1ChkFxWp<{mP2~x#o{nV4IN}kRfu)(T2rH`B%
zuX$@g#MBhc+Zw~ve!4#nkDhALy&I&NY7sTBLLTH%(ex_MF+$*kq6vzaDX-nG9K)Ae
z92%nzGPi2_;Fuo$f}FKE$N-<zZO(>&`NH@bpE?rf7%cc!oJWdPQK-BJ#z+826lk&Q
z%gDgdF+5Vp=8K14<EgqmIHQ%~6nukfhSo5+Y0Bm3Brv<dgIjo4T*6~1`ygF7h(0IQ
zQUsq8Yt^5P8QA;FVQ@G+eDD=DH0ahsdpL_87TXjG39E$H`CSG*dTdaMJn`foxw+9#
zDfH_3e;<%UV{T6IM5plT8))S@MyR-;GAyNNatRK0DFPZ>?_oh%8rH*Qs}jW{Zbt~*
z!kQI+a^(jhaTu`q95sIE4&HUa9n&XVYu@EY)v(eAH@#6^hLi(yiH+1V_E!SS1q${I
z*vA;CqU;Zn`WE0VDfbd=t9->;K|r*UB2pWwJ_+X`QW!gUDy)1nJGk&H29(bmeA2-S
z^#M4766rh9|6@M1k%I9m?3oxzoEw9;AVeMsAik1IKZRw)NKZP+KN3ItmLVfQ!J1aQ
z@^h1Lmth&6G<0AJ%`D(6v=Om5d}Y-Sfes#hP}sNI^~=XR7}y6N4T^JR{F&#m#T33i
zNh9!?Lx`~`c|k(yd+k>GC-$O57C2MN8xa0AH*`g>a(LF<Ba_7opYU2`6(A;j%Fl(<
zm?;D&L%TvPN+02IV*F*uB1{m|E(7~08JLe_3cwLxMz9iZR{?;RZ+<iQ4+iR$MG!`L
zQUd~-0a^>t3Sb+Skz~-S;Mdjyfvd3&g55&>86Os&piR6wW;N4BUR|U%YGb<-#njJu
zzLFDL?O6vr@)>VujeRqLz^t1xO+X{0M5qs1v5+h91$S_Iqfa3IU*m8G$~R5~{lu9s
z;M1IlwVqze!YJ35zgjQ8{eqW(+Kl;<zr%uN;UH%tn4_k%B)wi;pmzR5(N<CP6(x$`
zyN#}yUvmSWxfS|=@1*Pd*aGPn95J~)(l2tOD572^BmE+or6qzICv1{<{BL{$ds%$-
zH+~F61yA4{`#U#l8nKs>`7q<ep6hU@taDG{l^Fpg!clpCvuDM?9Kp(@eT(7ByY?k&
zPT-@H0AN4T;rWc0LR=_OhsaxyPj#a7dp?nU=z9EnejZk~v`ldAy29^J&mn%mGQ1CE
zr1V7ITZo1jGXndgsDeoG%r}wpKln(YM-=`OjJ`sLcpW}zBO3n62lKcT@$^6Wx5{~7
zQjyEp2KD6Tb3YUC5y{wT?0pvwVh@7-2>N7vo3RW*rMP;Xk5bP4G>hCHcp7~-3C}fF
zR47}t4&`IqxTi=)!mX=bz8W4W{|6k1Ha)9QGQPBKO-BOyA)xgro%qAE8xox-q%%j9
z_@`_zEyhVfh^SFyo_sq5|I&|v|Hr_(3i~*zRebXUpR#0SATu>Byr#mx*XBoA)hrQj
z@$a>%0gyTiYO1{k!7~fGwkfJc&*GXkTvOrSYb(MlwJfS>*fkaYy|&C)gimW*=3i6c
z)wStiV&{*%Xzq+imeZ7fO@)82-H|Z}D#0E6xd!j9>e!$rXn=pOl?2~rWO}^Czt`%b
XOVw<6Q{6Qc{_QRfSjL%#Rz3d@0W1&Y

delta 25690
zcmcJ2X<$@E67Y1-kxV9&`<mPrgamSjL*&Q-L9PgLia?lTh7irgn~;!@7*OQU0D&hq
zSy91b1&=ivWl$7B@mO6o5rypNy0EUY>#BrfT|D`!>dlb^cE9h>H!hX;`gK=VSJ&0m
z{oX!))$r&=gWvl`qmK%H&B;xbb>BSir{(NpIfNf#cggSbx$IUsM%~6t@<ZymtY1E_
z-prnn8#VW^O8Hk!6B{KrYGVvBEvltlrD|2RYUKiTy!^U0l>I7ysvXV#CL45_Y`Ywz
zjbg*(MY<W?kLgU>xU|ewwbj<lRpuI7dZSgUu}Ya0mGzmc*O)EUR@<uXHw;sleA!qf
z*BMJvV}Q7SsIIJ6eH<|6K-v8v9c6OF-bIfr?OggvU}|r`m>(}`pvGOpQsl3U|IkXI
za3i1cJHx_dyZ=NMA^+RIjE#^N2dvYN=_>dnV9Y1RG2NdBNX*#5KKBpm$iA;(PvE`l
z<lBNCX35<@1%1Sf8Gyo}Hd`zQxs)ZJ3Yo!j<%G~;Hb!0*dIMa?+fDM3&{;aHCykMf
zVKbqy_q0iVJUCT;Ff3U&3Lj+3Z-u4la_}-&{&!ejMmAoKLvSO4i3lbm7>^(qfe}F(
z0eMk)x)&9usl<v8SVZ?@;ZOU(Ox&FKKyW%#ap+1{R+%eoQUKN;CtpeYC?pFnm*GP%
z$y%|d$}CA^<<F9eS$20~@>I@p#ly##se8llE)Ba$&KbGzhI!axE`p^9ZbNW0f;j*j
zzN^f(((+Z6RTjxw<IqaxnhL9wfR7i;$47>-tnR*%PcRt${+{vj;q>WYgeem$*cgC#
zWkAd2@Qh4nr41P~!wCP-N{i&bWsG(*H#_sH;U?^527>AGjaid`+~%w_HeG%K;0(DZ
zYi#Oje25*U!Zg7jhrXuPVlAz2s<YZa998ko?n~vY?B|``N9SaP(U6CBf16yEljp4T
z$Ik-fvpI=jw_pcDD=v{ux#>`G?jjR=TsG%UVVUCiDjp`Te#iY;r2MDcNV%)sH>8E%
zF$LMsZfeoA^7d$rs)frLC6RJ+-Z0}>q*@~_!46i-3-jVrY38ulp|x1+>Q_mPc+D&}
zE&PqgpTf&c@*{aBwnTn8FJFB!WVp;mM>(lpG<v$O1QBM+zaO2UYsO1uVnW7D(9Kq!
zEF4p$L!l~H%V%E<k-NwA0An|f9W{J8KBtKx_7Ea$ld2}(O6B;xOg=Ss6Lg2N-Y`xI
zrCOdw&OUw}SK%b-ksIy|n~4pFGI73~J3a#{?U-!pUN`;|H5)6>nH0GK$1mNFy?T-S
zNu#l#6#+>nDGyEiJy3Q~r;z4uCGEzVW(3GRn+^c6&dIxR@_Um`u-xt)lT-L?8LK@2
zAk|yx3supfldRRX4b}mDlCHY@lmyhe2Jwxuy09091BRjd`$BIPj>;pA!KwoVaiVOT
zG6kxE=*V|W`80YK)*>@-P1RO;>C`1k)$X3DH?X9QP!}YIc;RV>Tyf3NSh;s>D3_MX
zMbkDwOPr%GradqU^$4n<o=Dix;ay>^FO_O*>#v!WN927sA$@+kP2IoU^cQYK!vxA@
zz_yL@dSj^k>&*3ei}9Aoz7?NqlvyalQkn|lJ=$dCy&|=%<>zO8<s5m}?0+RK!^(&U
zEi7JR>p{G-$wy08z+A=M`~ok=!IwZsG!5?V9o~`^rpjiuxM-m6NeHe(!#&;Mw@hTC
zk>+bgj`TG9&zG#$j2gGSI|p+o-G$Y21&ad9`{=xnL0i_$PZ&npLLy1jkO~Zy@lN^3
z{Ka5#m%j}bH+{h(mQRwo0ud6kOmJ0_s*~np$y5Yxwm5X=x;kr(MIsJ6dDJMMSlA9M
znY&14V-?E?jQ{~EgVZ?)fimC7FPC^wmyL4NtslTVJiOi1&6iAOIwGk|o_5=ukwk{%
z#zF+q=$;;cg(z&0-?;4%5Yn_XM6(RpovN2`zR5E<)OEFW4le*z)|K^AJeGUZ=PA6M
z2mmykY_@jw8tWP>364Wk4ffliK`XAPa%1;5EB0t+)3m;fEm05-YNR80O-P60QxN&u
z)|A!5WRioFu%$y+Wi>ZgZPF{<A6aMf@!g1s(IcFKM-U-lMcM{v|2VAYlyD;B6?x&R
zH#E6WEbm+y)}2%N7#o4eq_+SR&rj9<cU*7FzutZfm>;;)B%i+HVj6WyqwsLu=IPJj
z1rdm3wE@lYr7Gdnp2w@thZBwDI|l3jQ#A*bTHV#PbD7aygTk2i>kdRA+2v>zT|aNQ
zP{Y4VY2Djb>zHAFi+TgAxuJz^NI|ETAXc<7jeJ5f$sJq$<nz*Np}MEFN@J#KkJPA|
zSQAV2l8@U`bT~KQtN(4Ann?tDCY`heIjICb&%%|%tGw0>s#^orH%qRpPh^d9dwn`v
zB)?Msen@u5)V>gtn6-1(zSvJgvM#7uV7C0onid#cbVFj>3xMFDx}-!x#vjy{l$6Xb
zPEC>W;Z7<*P>7%iK{kT52#AP9cvXsk0v+PeCcM2DK|6x&2s#juLU_n_OGcaGj6Bna
zlcp%)GQ1*9M5U2%q*50GlC3xJ>RklyBj`bJ62WN%e?@>6cR(meN{HZf_-E?_uu*kE
zp3rzoi43PIk)fQuwv#RBet&H=W7Fh+G_5R*f|?K?q7K-kg?OW`tf_aJNr#ro9bPrg
z3a1b`DzL|3XUiSU2f%m*&SSIW=$t?~K2Ib6Ze3JV0#uW}MljUgEt7lJ<w6rOl`$>9
zXY=LByFvjvTBf^-C$=6*xCa{}(_Q2k%hyN{Ue=c?fzK(~bY~3PERVf&8Q7TJclv5*
z!fCRl7qKx1Fuz!O3I3F%8Whv>dwf82#p4x`c?hrU2t2ZQU4ub(Kst;yUqRq;AzpAB
zZ$!ShT-lNC^t;DtieJNeB=Se$%4y9M|L4F*WUh|k6=6IMS2jX65Z4>>)0?-kH_;+=
z-?C*i&nMoH$X&-64UBgjdi3C>WGbnHcd)BQ`JH<&C>Eys<NIV5`yP~nZfF(hBnc+O
ztyp_$_ubnfF?a`Wz`mCcZ_i^(<${)2*{~x)&Z^SLSvwZVz1ySItbM6`aL1!L9;RN$
zYDpj95C=<9kKEc3$yUpII+jOtOu1}S!Fns@zN$Uh_to_KsRBZ_7^K|pz@5X{ph)8s
zMH;v6N?|kQ4Z9LEkjup&EFRH&6v-!ET@yI1mV0+autNEpT{n5G^elN4o8W1VR!=&I
z;Bf$h!wx8D4k)e#yIY@uff6l#=EyJJe=9Hw0wXp~9<lpdZ89u(HDdJ<9;<^8Kcq!1
z7d#Xy>a^TfKOC)Ms=B#QY+t~_<P8suUq*~4$wM)P>Bz#)$)BL8IlNs<EQwT63uPoG
zO7MgOZ4Mqv6KKqBP|>zWju4x}J`GRli->>3ztjJK=F^Du3tAqS0lYmbQdy!2+M|=B
zVNZn{MNfzxvUbZ*QNtEuH~!9U!1XA`LC))3;9=xros(IDhmmCX&{hr#GET|r2eVnL
zJo>>JMY!bG9_&m^Wfa+$Ks<>9qJ^-l8FAv2+^{!=-77!57nXtDpX@!PHc~~ji>P1V
zC1Thq`K5iSY?u7keWg%o^8OgjaI&hTGsI>RO|rSv`bJmlyPina9mkFv<!7E4$!v1p
z6Tdm9bh~`v_Y+u(obhC|d}f(m?${kE2c+r)Hn8>-rfO2tglf!_<g+)1i~dPa^P{W2
z-B+Icm4y|<5QqTko7^!(3v%dFaqPG}`l<1{qdJ(Q<?@=R(u?%^m@QNK{DXJgx%JLH
zHJ|vW_v=)FroO;X5w|mLU+l@itlq$J7ra#wG5x_%w?70lMDYb@a1gvidO`mAsrb41
zIEn%Ug$O);ZW-Q^*V>F%r0GQ5WxV|X0r?zak;iE*l&hYO2_27*a}gL3EFd61{B&VR
zkT&E}nn7#2811bcb}1}Wn{hEqzWj8SVWiec-vVcbV%jrravh4B1PpwxW*A9IJls2i
zOBY(Ddh6QK((>9`$x>NkuD43*SaXj2*mH%sq!2N951OU2VN3!VppcRcH_iS^`;5}k
z%9_gh($b%Fazxiwm_W!ph|+b;NB+7iHE^g;ijm`=508oj!+R+Ju&h`0djnHX`^WeC
z$M<;0JJ-kU&rh5<v?Y?!?BndzQdymVIQ%>~b~JBo?(sGe$4cb6Az^a#3w`Nxpn|e!
zy~Z%1gf<(T2&>J~9V6s~?i?5Zt_G{Sf5@Y@lMw+05Z53;Np3be5v-{}6k}xZA}-i4
zA@zOXRC)YMZ=^qn7_MoI;@KSFY+Pw8#nx8K3_0~smcm2%{zG$Fru_AxOv6$bs<a-_
zAm(zGC2zD(VCC|0dnnY!r9;1cq88Re8Lw^9MIz#Ha@Nt|@|oAVShBqHXbc-IKX)`a
zh^CiB0OOlfAJB`hjy}L{?{0a$2i*>MJzWDl5h^)*ceK3a_)S4Ant7^n&LBO}s&3_t
zs#GTLd*fg_*p5I3C=|o#(3D%Ns-z4kkum`|yc<BaD$5~M)&e^D(Kl0d-7p5*G`aW9
zNw@R`M{T+J$4hEe#586@8~CtswC)+rXq^OgU=c7s)lbTYtLv(iTO<c2?&Q}`M3{!?
ziyko`_*U*eQD6wtMk~sscdEwxw|06(l7g<lnq~xL2+9$R?Y{b_D5jf=*V%IXhvATG
z9QWbIfGjK+j|06CL5}>V4^5GtwjO*67WwLj2`pPq_$Z7yy2pLA3c0+$XNztUHqMkY
zds7W#fdih&&5?KaX0WO9iQX*3Bz%&9HFLYK_MYOybMU$dfro;4yv+jOa$-61&z~%3
zQ@fXZ>I=Pz)i3fX^3$g#Oc<(9h@#neleuc;R7-_5qs(lxmP3bwRBGMUbv@pZu-bNF
z36a;G9+5E=6LMkzrd3w6<#r@}7LtZ}k4=+j;$;bfA&nir=+j-|(j4lhXJGMad0SsR
z%YEz*eQb&wlgm}PSuxl~jYFb5=xhUeSu0=sbG}o_svS4x-f$hdB;@sgL7{-(HDFNj
z_8i&xS-No^R09V}Vv!@a{5?W0{VXzUD>4$3G-Thxqqb<aL10BW**|`klbe6N4sl)w
zbXeb5S<^9~Lo`Y~Q@y%NKA*q}-D8#zm8*ZmFerAKj3`6gEH&F~l@+kW0L()E(_b)t
z!kpCPFN$@Gp(e=VeP3i7_G70D@!pv!IrD`dpFlq3IT#US7NYTCD=GpdTu2}n;q4fF
zKzcz0V)wYDkkih_vm$xs*(`QIZaI6@$@*Kr3KFrmah<&FZ+W_j*fdjq=Wj`dBZEiX
z?e}E?3-Dm2ngw#{-@|pp^+Mo!4tqm>?(em3#IwduAbdcS4K7qpzf}O&&4F%y)IqkY
zvUZKF7dvdm0VuZL@5?{SAAVhz<KZ%4Gb2hX02jXz-5`FK%XQ~sSf9N8Tph$hSI_-N
z-G+Pv9+(k3F^Wt~9AYsl1?2lFG9tdxKu2J8>YmIUnX*7EBMu{9DOZOU97-KNIHjew
zx~j^0!s+1kS@190!8HxlQj*;CZE|QARBZNhkDV%?>we+eIcSou_L}7A?|(@}YD;J}
z2Q&{M0ts`CJV`D%pTT0~y7M4JV#k-<B!7AS0aG{<qpN~gqN)P3MpCsTA+4G6uKpC3
zBEJHVI_v(qe=|!*PX%$LXPh*4L?Xo^sK>Tzuv^G0%g<e$&NAd5FRoV7<y>UzSxEQB
zOLy@Ai_aZgrFt4_;!oNl_gqepk6aGup7z674sNmS$|%?#d*(`f0!@d0=+KDBL~I%^
ze|IH3hM20WtA!Q1&7rQZt&-N#Fc2im2|rrc`0h<VW-#r((Ve${(*5#JiB9j?{qLVo
zYDSQ*+zpjsq30uc#xrD~n|JrK=uy;{26$$b?u8}}COOz@X*+gx2ZAaD+Yq!cVZOq`
zL<wUzvbFYm8H4|k(`LIwrkZURX~$W#=>MJvi~P5^QLTa9zl5)2#rf}f2$g7cty<Xg
z*zk4q1Gh45lo#B2wP>1sRH_!8^0yg`R;zallY3L5#fBOd8$>1g7Vj4QN<I$+z+CDI
zx<}e;v}`V4p&Q_hqLGO^kXjPl2DowwsTZUGt>9@Kya9x>A={x_n^h`VSHkwnn(FE%
zxXq?pEQYF>wX`|3jg=PBlL(tRS>7yNcL+4W_NplNW>XjVsZ24C=sWcf8cs)K_C{o$
zjL6<<+@kBy_C-Wrw;Y0dQ`94Voqi`HMkqC*Bp|F~<<{0c4f|Ghw)Xm^3$30F2a$g0
z1UK2I>e&W8Gl_SC*hH2rw83n88_KMNz~Q|L!kbblr_Om*mm{SHDO-Ou<q=p@MpoR9
zfV7DO90OU&!zhwFw`e%LDsAOewKl61h1DKKfXd*|He01y+r(6VMddYXA?$YOs?Bw_
z`daBA_HY0JDuMJA00*m4q_zo5nh~rMJ|S!#`=@<*2&>{Wl=&qk#Zn$TJgAkPfIr3X
zOO2KCvD*R!g$O(g8ZuE7a!f~zL^cg-4&I{ACC4c(z$>zMWUOw(+foE>BPz{A^C^`h
zK-;8P3KSTr6#)s+9=v)CK{tZ&SkJQ}B4dc)U2%UndoU(T8`-~-snYWL(sTMU^Db*w
zaILRWe+;7?Te~HKnVD`H;xUQ$O)Rh46S0}Gv<v~oZfK)RAjqKUqONe+1MZJB)_@@k
zte!BX?(lWqNR<_<>Xki%6^Q2=jH2Kh9u`5%r@-kou;6MiSGgBZJH+oI*-8*T$k*+R
z^00PD#3aoT&qlFG_K<itiY0>qfVGCuMYCOOqv(ug!*s6z;nL&cL^R7{kBfgtvq|oB
zfp{*KRf<C~Y(+AS2)XaH=?)FL!@=%MjE`k8>>05*mQ5Ul<Lzi_j?PfB02tKFDt5*(
z6FVfHj$;!PW37?vVnXaJp6x(=+L_97+BPDCP~<?O!T&0u`T&87$1)NTlDT2n)e<Zt
ze@Sa)k|j?Zf-?!pN17gOU1bC8r#Y~}%K#kenledQn`r9Hm68<rFd&2+Y<+`t6j2v4
zQPRmHM0FbQ^q75D8e6MoxpqSa`+yH};wum(NeT8>0$!YEDh7*56R=pK{R48_Nr;_N
z0E_VfIr>F-MUs!>a2iNOZphIzW1B7nxEhlp+_K;>fMo=)M1mtViWOH_gwwOT#fdz7
zgMDu{%Leyg|1gK$s~Jb!)&a(Y{sT-8*(5Ypu)C$4BuK>mCL(A>uvB!6Wf8X!%Zc(w
zu@v)E2aUvNX$#<VcvqGx&XO4J;I@@g64Y^MfL5Dg5E}8`3!)TSDW-^@#<G;i51?^#
zu$ywI?Zk7?e&aY+!Q3)ufAt1dsmz149vT&c8V+H*do0pDP(h-BY(nDTj6{RA3PT8_
z9qCo<A~6}sls<;CYj%*){xnCpX)CX-srNO*aGVrg5M2}41`mNVC$e*DknP+8Ho0~%
zX}F<6qldYp(R=2YZ1XxK=}`pxkq}gdc;`<^x1a%RHn~Z0q5(o|mGzaiHGbl30XwNE
znqEHpbBO)JLiUo5q*i(o@p2p`>YDU>1mq~lWuT)VmjN^q0~4_3t5`|`P18+|2&F`N
z79OMqD2)6AR(cM>b<jDyZ#NGsuPv)I*Eqb;Pr`*F(4MhBk8NKNDKl6q>lSlofYrOv
zUOj^)vNkmFFk$Fs!9kT2W2TMB$NYeF2A_Jl-4!@2e<>dy6d))>;Bi>wmuNtwZ&vK|
zEd*Uy4+T*1G{|F@lYy}g@G?pG1i^h`*enprT>G|J?C<IT(sMInDML^$Hq3#z%p_i$
z!^XBLc>^pDKtL?SiKPJEVJKY%%kEN)hHT_29lkXKi^zHqsYJ9#{e#O_S<CMzg=ilV
zb`_<Nx3fwvljk!4XTo6O9GVKL(&FH&tPU-71f4dB`{%OM5b{LEB3RqHz0jNX-nnct
zSPtB2+Auc(i9UlY80v=3LSb_twH-+O556G7q0nl*>N2GEf;;j~2PgFgC!O?9?(t4m
zR#@Vfd92rf2o%(hi@y0RhyUs;d>61{aA}xA+_nG$KBZ@IYyrzP=pYU1-2J!zwt$tg
z=<g7Nn>)DFL~2v9bhl_)#HKT&cykeJR2Cg}*!+)TWtH$4s(RXzq@(F}?io2WX31)n
z&LbKU*8vd}lwG@NbP-CM^~4EmnId{`Wvw75H!ooqSqVz9vZgx70QK5Rn?$P+t)g)x
zprl<CCSt&NP_b1GzP4$AsZwl(*s+wssVH$`DeHh?!TMd)EMwgnNP{yY;xM}8!zxL&
zl7x>2=SKb}Ze9+KJzrEWXL#rbvAndLE!EMKWQy=oHZpcPu-g_)6FDG9d(uC#$2-wE
zjZLNOy^LP~z4R{xI1{d{4Cw^2aB$DBiq$Jv2%94|tzc7?X%SzoV1FO)o(|U%liG6V
z-j#GlMmgneU~cGEp)O-L^D?!VJ&`4fhBDS^EUAElk1eWJogNl8;zB$N5nX-Uz`R87
z_pp>$Z)H9at(q3idRDWvMbo0X18kqfTeS03En3m5;k0jLfC{ZTk#A)MOecn0SZ18g
zwZycjaSB^m`v&OAdvH(3mN1Rzu(1E9?!5m;cd)Y$L&l%GySstD6<IJGhZXR9i-H??
zu$FH~gyP?<tVjzZXkzvyE7>Sb+e^?85~*&hqlDu*fKqYr6rJ?Lt;2}?tg%AyT2?FB
z$h|8$o&-Q44Z{|HLO@$(O3Fbxjs;`!c@bPWyj{)V$e)797cfz0IFTa$4i>6$@R~BQ
zGmnSHsbFH8gGgfr^=(0!`<{v0?*Ky^B~IVL3V8G|abp#`1$GjG!~4gml7{v8#`Oh<
zZ<!(<t74P!v9_AsqEjA=Wz}p#>`bomOZo9)F;_(tGaDEr)!T-!;!&En6Ey(E{*QT>
z{ZciPl{Ju}oTQZQ;KJh!Nj2}m(PA`lU9;ggAhg(umHvZ(LW>mS(0zFOF@m8sMT>>7
zEL+V+MeTs=<`Ciu1{(unjk99zYSyPXcqQ#&FOt}CMoBryF=z&abfian0F_G-cf0x>
ztcZI=emzS75h|-^D-?&Tp*R8jZ7M6KOgtp{+YnRGe|N8BFi82SV-zQ{H_{cn`WphW
z59EQ#)Zx?*Slo?A28E!*S7M!HY=YpZSg?l82x?~9giFopWNrAR5*DKkg{0*3YgjBR
z6ipwn_!J+Db|YJ&v%p!GC0-VT#S8Ad^(y?&;%o7SJAD&RHQM7E7#ybYhi>TC<Sk#2
zVns<Kn>?^k>}h0o@p_Ypwy>x`9VV4p_4TOg^b@IXvN%z(mW51Ip82%+Na_~7#M-MZ
zkW67<K3Y_z1A2iYrb9{~aGfR&uVq>D2fJwL?=a^1B!m@#-=uHo6sso|mq4(U09_M9
zl#?^9c#COQhc9dzN!IduI00M*xg#uZ7X?i$WHE&g5;Brp%4WPGG2R7N4rA%ShR*0g
z`VuRd5lI;Wq(<_^siGCgS9p6)9B5+MG0N(7E}RS}S#@pyje@N>TY~tZiJdm?E#H^;
zV8w%@4rqHL)5Vv~U_ss6g1K-yS6;``4AY^3bKgVE-pow)v+LN$8YOCd4roX<DN8+4
zMG_sdSU3<kmu7{4l0=T;I9iS3T1r`hQKo@*(@8!Hka`Wa(@C}UxX(%Pm>!4cS(M>+
zpcEa3b<w0r(*d}G-Lc}P4G@@~7k6x6(NV|}2&N#tx+(|$<-)%_hZ@7GM)BwdHp00g
zbF+w6WOM9)-M}*Nz&8$-U6#*&ktFWj%xo-8{I;1D`?YB;>Sn-f(L};Y1~|4K8(?7;
zR>3W5g3O{8?OWL0Of3SoLLj3Sqqef)+BQ8jvzKpWZ>r~z_>@Rja3t$-3>bSrXnz|P
zBp^5qz@fL+tf{t2$OsY(CBL+?s@7aj3s;v+^ofRTY$WXnO8do=+gKcbl$OciTzX8L
z-Ns^d+i}*X3GH^)Vc2Ir!1kB#v-Cuc6pwCa4@7lX_Y~}`=$Nt7e~T7VZP9xc^f<!@
zT$Vn=?R*#ejYa+uNrlO99^b)bs`MU$4@Jot9_3sny4mSjCVpza`F?N|ie>Z?0U0dB
z-m{x64i3P94_Nz{#JGbjqwNVqN=qON0{^MSO77JQ7))yA0iM;7pAxGjVgnLI58v2)
zMNjTQ+^BgDuWHy3uU=CP7ZB~ig_6a4mSsQ<l*-inp-ZTP*qA6mmrwaSsY?Vu#b%G7
zOz<`=^*9t<I^mL`5@yhhOF*0Su-Nhx%MN=1pYXLd2XBIZYwO`}Jp}t7J;lz$BJ1_1
zL2lyhpFPbA^ldLfRY*PL<CqE%6e94foJjjgyB>p@%2MfiSvXQ71S3!u#sCsH5y!dK
z`;snFn|5)$Mw@ua??&yIi!E#l(<WUi;WsgDNWXaEB^E?8C+Wr6^RRF_^%DC$6;pF1
z2NhSOxMZ4-QGj3Ch!ksRPglwopB-YO(zB3e4B!W4pvXi8+_I2TbncZ+g2=P8aS)eR
z+u4r{vSk%7vsC49gjGE7G8+}X5_*9S2<d(tbSie+DE|C18wqNveT7xfieId@Lmqz9
zE9_e!+jfLyhSwq;1DiWrzI+6daQWh!BMc56L#8exP~~#171$Z<9E!VMWs}%!ar{*l
zynt4|TyezGSwITfn~%5)5ELTt%upp#hfYeWK`<VldOT@4mLZ4{sjsnQh1KQA>J-uZ
z8v8B|Sq(yO#%5)N8HS99y2+Ymi%mz_jgyHN?j@GPXsKNZDG;kfi`OA-uU#2sKkzyW
zXA4Bc>#T^zZxU->XHP2|cl*WgV{95L7d6Kiyo_Rp7h#q-H_QSR6HKvd9gbryg55x*
zLswIZGz?Aukk6wbyFDZsH;1>ms!B<ylS60#L=Y9@u)q$&0$jmXPo2Q{he?B1dlJNw
zPA51(3B}$MuuWhSZ=PT&tlIvs6HLMtGaM{GF$$drFp<cngdlNm9iqvEUTyH$wI5k3
zO5R}+>;X~n4v2~3B0qkI%^rmUa7}GQ(HwA#dkart#6x1{yWmfh_lWFwz6)lx4Xv9~
zhA?=M$esEsHjJo2jZs`Bu`Cd8iN$2sTCjJbpQuI`>0BBsHmC;CS0l(oP>Y}rz`*%;
z?znbA+h%_c&EyIn7k_-8U0q6|YR0}Wt@FQ35s`)(uIwQYRfu`0$P>*7=8EJG*l0!M
z>qzA7n?7LAas$e|k{~dNNj+>*>|H=NXd$r)8sh5@bWLER_+1YhdjqnM*qQ3<@Um7}
ztKn#@L_`qxNc5;{k}x!d6stKR#QI-Z#BxfdIzpVg?;yPH%$<$0P_F#%7Hl{;4s-as
z^-bAgkaCgPB&`^QNMF&OV7Q4aUeGOWAL)w9j@!F>AzuLE@s~>wV*U0pyW1IJZN}b6
zFs_NSXjCK#AyCN?fJ-za8%e-JJrW5B$q>;@tndV5#ESnBjKMoE$_e36B!NP)jd(?J
zrfhFXVOS83;7$ZI;0U~;6_g3DA`vu*S$%9wxKqsB!zVHOCBWX<#|#j1$yd*r>_;8!
zO+GUR`3Egw{|7+v{1QkWdIoV0AK=Ix8ry2AURlLl$Fw*?fhQuMmxcHs6~v0C#5aFo
z!&sIG_=3g8bzwiAWTz+5tJo7U`wLio-6?9nV9{)=X#WE2$awpUUqJTDV<(HmqBAhK
zo!CVqfI&X4Lp*+lB?sIFx+^td4OFLc=koB|Gpx}o!HUJ`G@TNUgEK%G$hgxzZTtsI
zXq$sIJUk$;LXu2VO1js9n1~NJuMS_>a;zzJYJx)x*+}bJ=@6nP(Lr{k`YLV|J922t
zYuA9vq+&-jfhfBUgYv>b09jzz8*skn(<t)(2?@x1Mg2cn60_R({FA++0Y5wMdzPN|
zJ0#zg=R=|zu~+ofLk>D`6Hk55;@CUlz3*9*b+D;9s8)<)$^WuBWM8&o7c}^L@oF1_
zA#RpL7r|@dz<HLd*qn`aaI;z5wb2-Uk=5Q#y5^&7Cla@bSLEW7kTIyj5_Q;$SJWXA
z;oiBR&aozW6*E>U18~jGMYia_2wwM;@V>-80lx~Ge@^kMr0*rE!9$(rGQ{N(a~h_{
z6CA*fiDJ~yp*vW#xFT)0B5h^>E`#O~|1JhHp)4icv4o=8?_eWkBP-0Q#h#50JkY}I
z+pn-kKr8GSKd}vb4%scB$fdyG%ssL@#JPEfL@dQ+vof2W!969e{=$akW#OY;I8YgZ
zhjNemr|^3>K79beog6m|VI{Oxto{|WcZ$99SJ>bjsJ&rV*|zX!u<~`Z_m!)#(YQkV
z^(w|bFZuH>=7koi1a@xUW;{OR321kXO#j4q9IFzMoHvo6x%B;6&Y#q^4N-LpoI3$c
z3GnDSB*Vif(s_@j57uw#L9DzN!GBk3=^=RTP+RI66uoXx;S@iNjUGWjin$N3_9J*y
z^y_&fXtlwIC$YQinLa#MJ^T0Y2r?r1$o&EYg$PI!P#6?-AmT_SNhgNrA4w;IPsMXa
z?$o~nw4$&xKYk&I4#dK4|CM-d4kxz`l@;lM1Q!)-5_Jju7TsZZ;4q1f;oKz7Ch%NC
z0#+mk6))lvc}Z3>6gZ64<~yty16S5sD$8BMZimJaVvz9QfTHF};-N%7!@0{crD*Cb
z_gds8`_GB|BlOGfC-ZY{h?n-qV1LF8FWfsc_3$1!oaiKLNxtMAL`|L+_>2MOkkaGu
z9B8>tsj|V1im61^s6h_RN^`lD><9F+fLaA05uR=cp-!s9A^X6dBfP#&E6pu{$e~sC
zt}t40Xc3j|nsD`Hv1vF=^-=NEaK2TMR>)l75`A_Guh+&M!U1{a14pG$PjY))oEgO@
zv?X9EYOBK=j!4<+kmy&jAyT23EOJ%vBO&mHy=|2lCME-GypJFrnnM0E3(<IHh^A4y
zwiFiX4*X+YtK?`&#W7v%&^FOS@nAal4@kk*C$R^0W$9X}TD+3Zli6$HujwGs4*O5(
zyj>edBk}CEUPk%`j7dC^%d6Uur!<M+9%%%W+)70JG%6aY##RfVM*<d-0i%J?<d7)h
zcwItA1QSxiMq-5YE5o4(5nJPnWjINqBaer%BjU+C9?v4}@8)rbua0K?0db&!=dmvF
zmjWI!7H8lmmMB#qs<)A5!VDM6j5T{Dm%uBbHlJpn<f%0l<ywjnqY8N{8zmMN^6a(`
zuo=ng=Wtab{RQv8K#-0AiEa)l2BPBW^8oR%a~5A+xfWg>4p&(79#*5V{}HYnnp$}M
z7GE$nTkx<Pr1EU_Qe_><r}FAh7m$ZCP*(+5+mvmLBt$}@PnL}AKFW&1-gIiQ$Sl>s
zZYnX`p<gN0Hd|}pxG>E~YKS5`Zy+Ax@es0fuokGShtq47H7hG24~yw`IJH(Q?kR$g
z4>-i`B0kYT6M-YPg^1@juwc<&#C;-Pfr92>G7GppTM9i_msV8UR!y^qOySe~+ej-t
z$vh?W#W^4ifz}EeuczPAyYLv}8=_eetCefuj6OxUG@Ha)5-<`qQe|(mRMEJ~Dp}!J
zOBQb8k|4oRPS`Y-9Dou6?(_3tlJ6I$`8+NDC=S6yL$FvO83hVu9k7vIZZDtD-__)j
zY-a*G8*s<9_(dX`y_L3=)i*}~a!S5ptcD*$_$q{Lq$KJ3e%OE8dn;cZSkuB=AQ_6P
zMq73(1;n`FA`8xW`Ls}RtEOh2IJ=z3d3jNdd~snFj}e=f@O*J`6_2)`U&6m;O48@J
z_-rYk7(mB=NJNOO?}`!2_^>fWC?v>xd_9Wzg$#1WVtC-iIq!zbQcESK;lVaaOxz7^
zW8Q+A&4J3q4%k^+2t%}eFWy?ld&DEld7^X8&YI;5_9OwL46}!pat(`wT}$m0)v`;l
z`=GOUw|ddtH+V2pW+`FfSS#20x9BWd<OBY*=uL89n~5HbY4NuBxF66JF`}p*kE7GC
zMT<#B{8{wQFJcsl)rpYN3QU04<GQ}_@o`mX^%nac0uHzT!VEgt;_zy397Mvvp4=pi
z0}=+(1|1;@@K)Zz|4GE*!9@6ah=5Jp{li%(k+GP__*SE8|F=ff=4E3wto;|{&<=e$
zuYeWMGT1|eT^p2M`nBj?h<5UJe+|@V)jQv5;jNlR<?R+I6AzjBbQUSjnR!|{sh(Q~
z$Xdbst;km;5nxbcg472EL$Nj*e4c=Stj%6j7~DB^_*mE0!^Z>Y{d+XxXum~m8Bbte
ziJfIUB!O3CJNzLh4<B<WHG?oUpiSWwISwzIwF2`ExNjOF{!zxq>h483`ce!l=a04d
z1@(m`UsOdHb2~Wf(kG4R@b8NpaZwc<nA=eZ1rgDrZD-rQJA1>&bV-L3pKs_5pLBS2
zZ+Jmpc+|ir3D2+T4WD?}+#8;MQOzO>*kzq6I&ROMC!;dD0#8Qe^d)4TPRQ*|$n7dQ
zop)1j-c9cYoy?ncvMpiup2EK9*hi*!PTyCycXnS!PUp?gZDi~tah-7oVtY;F4hJ1B
zcsaD!H2E0oH5K;3ncV?T3SSQEHRT@*>@^i#QnSb@?C(*r|JP1kea`Njz3@QdC(-HD
z>xC2;bH4#NaUn+)lGGOv+CNt1AKX7ll`-Lz|Ac)h_iH*9?KXbwKcUBa!jBhWZX<8_
z@nRuU1x%zJ;y1j5i*q$^#|9OT(}<5&fFkfE$*7e&5o6`^*hI0~%7<x(gK%-NzZ62m
zqgEan&Pf3Yy2K3L!yh3oS@~_DZh09L*p#p2Y2(SHkZ}%HyTpeCDIUc``NWIEr>w@}
zJZ~l$p&D)BiVs$T5d4Nhuvhq0@Ju+!8xRR^zV(|_enC4HZ(V%fl0Dh?mf|!-Z<zt7
zp-)HT^+x2Kj2LrKr7_N89U6EP7<D=zp*J95U-FZg`!l;TdJ_wdCHE#ydzbYl&iFK7
zX1^Y*;yb~J`m$OT9NiP0e=?|`$G1R9H2^)zPsAMNzV=Tm_*w5X&xpyQq5)OLPF9u-
zEc(F`2o}!N@j0wWWUuBkl=zp1Puy@jE$JDzZh6#-l<sxFlA5GAX9}|@y6ZuW>qYP}
zf|CFsaD*eec<2e<(8lw*bp9y_nf?{3rmnKIO#HN(pEDhU+RZ^^wg*M{VfLRSZq(2w
z`9W{kAIG2c64d@*2hUzc0$xLK1OYmG3Eib)IM78%G}bVr1iK!ZSm?$w1RsRJRNtl&
zn;LmxVzxHo;wo0ow7&f_)JCoM#n@17<fW`8rp;1v|J};cN4=Im$l5$1?|?-K&I!eg
z6x6(l-H^GXb%hUgNvB2}8cVsgis*G{z{^!D!343Nf^OQ6&4rO*w18O0;8+IqNeLg4
z^rY)_iY;A%s<`<Kk901SW<wP3UMM{v>YMo=oVoF3>v(?hSnTBb!34DgLJy1M>v;HV
zj3iR^%6z$IOef_dDFp}$5fmYy6(<oo9&fRsavUKKJ43Kb3~S*dl#e{*sg=XzRW1B$
z%|aCUgZgX6j)VJeLvId6O5=f2h%_N^h_9)wkI&9frh%r$EDmho$&0Cb4{^j_QWKg4
zVqg+>MAPBfY>39Pcm!DpC^54D$b>{39QCtFuZ!fn_^{&Z&KWjH!toCl5r@9gdF<Hc
zFu=~E>jnbC9e44HFeI|sABUAa#XWg%+I{cl!!ZGiC(LHu!!5c=$k0r2=pLTJwBn0<
zcr0Xgj()@6V)i#S^KRUhYuL(%w|N#uLt^%ch=9%_??6%?MN&V&D|EC6omodRARl3=
z1E14)?!((&1e62*7_V?;hikn`%UbCZC?HP|4?ppXp8G{0-sV8(pgh~ozM|k>ei6bq
z*iALrXWs`onFJ!shMl<+Tuv)4J%~N+72DeRRM-kU+0Nlbd3<TtK5HA-GkRMHmh&`c
zgyjvyf(F9%MkkFSN3?F|i`gu3YCGTJ>U-@DxNf^n-_jgp6KS;b+Xf01NQyhTHS|kn
zS8%w&uHiz;mJXSg)vjFyhTC>GkVUUE`UadfMD-e?J~70ABMAzFID*##Mdx>NQ^*U@
zuYmYf`Whp33Ox%&_C}T<N_TN@x$Hu;cut0hvO|W0cwM`Apg{)}IaTZwb0G?iZP7iW
zcKK2WgQ4G6eGBYLS~RUbEqZ)=N&I#{H@I*Ghr#)qSc|sRhpB4DYE(6&@%lOyBLV>d
z)M0Qc#|NTO8`LRyC`|6yYS7&SUlh<aiH@6jxct`(p>cyr=pho^<8k6Xe+8z`OEzDK
z89bzbi1rz-F+n$T{(sPZOrc%$?1ojQ&VFV$|C~=%5^*Hmc!pv=oF9U(wz&jBd0%=y
z-p)ZWaLbzOxW`zOJB!eD@(G3{ye3TJ#OzLfLueC<fDwGfdewytm2WuAd_a`_sZP%E
zNXxSia#Jks*$7oV;8uQ5JO8%A48u!^1-5Vzx0eTq6RUWXrq#P9S|n8RF!{L!@VSM(
z+)r%Y3nKC5{XAA2*$c7m#dugK!?8`HIKP+2i%;;iw#0|vY$jdB-wbDa7d-?IT=fFA
zTS4qXlp~&p+!c?VV!pce=QXPOKzsi~{B2&0!-AwEF8(Ej9mo?mJDl9Xr=t;2yzaCs
z#G*x5{Z_&D^ARD~%HfM)ntO9BM@-z$r$_$>8HQcKIp{o9RP2Mpw)p?q5C(h;HQBrO
zLjne@0KC*IzI&7(Gg9wrs118FS>lz)_=wDT(6KEHC;+7kQ0a|3e75?W_BQo;oAzXU
z>YYkXDiy<#VhTq@;NyJQl6<7N06`&wA_U|=$h?r9B!QrDqrOW^a5O6rVE03Vkn#8c
z!Rw;qabBFXj%i2qx2RRq*eupJdi*6dyhk|f(pv7VO;fz)c&Bd+e1a!?#Q_gg(geiO
zg~-XJfRs4%enn#bGkih}<~53yB#i+crbdy&RmdJAo_&T#>M+`Kgo^CDcxaolMe1>Y
zbXtKNAiYzE(?us$6^lw<a58p|4p7M_CE%4FP|~?Nhc6z8TkZVPsUipDU#3GVAZCb{
zETkN75~84(YOtGBi2EA*qohv(j=c~;5duo#7{z1H!s>sbc>7sy8Q?f`JdU%>p8p5_
zkXpA28)b?wpXX_YmtbVl2Bezg#-9BGmsvDMA8-VeNtI9)+z3%i0WrK0c1xJ}p_@mr
zSB3wJ+zfgOukqK8yPc3iI~$Pc%Er_}VRI1LejsB2KYFm&5FC&4v7KYGIU`D(`HF|g
z`RxWn0a!+L3tt~b-`fe>b-Uic+QVDa_{oTQD!C^&9KYLwU*t)5*9d0qlU+6FLoU4e
z2RUJ0s2FvKpUuMqD5MP@A3qVubPmm-r5BBqlgFrCHVr%!v+aD;%G0PY3*i<NCK|L%
z%-A{ObjZlwkdY@t(l4rX`gr=-%a#^6J$yPir8hX`fcDeijJ~M2T{F)Fhl@!&C+$oA
z6iTO@9+lraD*ssMr=zCP(+fsuO!8f>q_Ek$BJD6g7RSN1VXCGV*x+Sx-MtHU-Ys5m
zUN2C?Bjh<>>NVaLjY+<6I9$}-%zU|&Cot6_PK>`c-*Vw!&U}l(!di9h%K?wl6!ECN
zok$Un5k3R8X)vOJITLSjtdT`);7}?Yd+%^&PpSy%dyqXj30_bq`FT#a4oC}W$sJ>6
z<(undR#3y}H#D=->I0722iWmF`AfZc?iFrIFtln0bYgIMc8dmcPtwj7gXldDC)(Ga
zVg})TgpUyue&l+MG`B^soQ+>`g!^cHTl6iyqV@<+Q5)gG@jF?l$+yM$G^hjqV358R
zZ8K(md|M21!k*BXMps9$93KVN9~FguEkj9Q?K?q&S^JCiN$xuO`eCkXI1XGgg++$B
z`hxL+Sz8J{w`y8_<=^7M<hmz~xe-X=L=}Ekw!I%CjO*o?+}S3`JEeNr?|YT+=WUQ!
zqIEKkMM*Jjge%BAQ>0I7P=pFdHV(yI*#M?Eb8wzX`AnJ*>URRx!<kaN_-eSq95uXG
zT<=gfL*ASWC~DSh=W!?{R3;DSix_ZqEcxM800Msmfe3Kz>`;TxqZgk`>uW8wl$~&>
z;q4?5vzkSSpksWr?t9cnvzUF1SB8ZeGY2QA0s=ET3dQHgcwAb{$kQ>Iy)l_xey6jh
z^kz*tcFW1En@+||-^2SNBJoY`eTjRGeQ6n;{vz}^kGu7M*Z1l4+3Sl9jh)7QWuHW(
zQp*bo&|$v;$bjf2B<b<;0~sfW-*7nl<KYu9Q#2YgMH9s4<2*(kr%w|Hj`L^QK95h@
zH|?1PFXnbNc278&o_{jF;G#+!n6~q#j>0{fzNnZ-CUj1Kk9$R>gHw-5-Z!Ol_5}kx
z?;i~)`Z2Q<yv66oi!(W8nkK3IA?@U=ipa190oRXv2Tu>xyyY7-JyP>ls(yN$t{m9v
z{=qk@<nur4d^SOeP{B(kYI$dEm{@TR-Yxmh8{Fs*>mz)F1%wf18s77t(;g1%se~4m
z><t2+1VWf5YTx8HO~VO=mB@OWIg%ih8`qfvnr#QvP|g*(vm)1=DVQTPCwPKxF}PUU
z0x|LgAD*YykK8itOjyiC6*G?P;C%rR!hfg#KK`WFey_*$p9ZACM<R_Q`?XLHgT;s~
z{!*?T-mAY$?~QH{q&`Qae8}V5h%^dG$#0EAawznS$16`<hR0D{vPy(o@Hs_ei*a<f
zBA~&z$DtfhOTv1ziRZ>`gR`nCT<F14uk{P&XTmVZ?f>vwOmMay_d6~2?>^*R_$u(j
zAM+-48Ilg{r2eUE?63q*X;KJ98Id7}5XM0ZW#jcWY^!`_RY5?+lAgI2jZ%?lI>krB
zF4}XaxKOrDb;`Esiqkyb+Y32UBApjc{uMUaD2A=Y;Sm#wYpByo<m%z+5GFd)HJ(9u
zShp0J_ywX^hF2a=67Etg%LEE+U}{zIa6X9#Mc~MlRWgJQcvei|+%5JEXW%0gz&ZFn
z$ShV6iAZsSbin&I;MHlNPnnGS;hFNmgdea6PyrQ9kn<?v6%qXvkKk8g#F(#my)$?|
z@fANANTZ|Zl`JN_3U=%<Zt?+YU}FZ}k>uk2uYp;V)ycsTcp)ig5TMdY765S4KOYMU
z5ELRPLO`)IE_;+{5~C!k34tQCctrv9M!X^sprD$F8IK4&sU)A3SO>v!anCuP7Z{?A
zzm!qIw859=tM%H5{s{5jIX*^7F|Bll(Q*HPoJh^kyc#kp39%0jJ|SN~eGt(U?h<Fv
zgTQ)cNF4j$!&s634G(vIqySIUVNmE!>5LV%-|!M8XY)4morz<bg<!T?T+nmVfW!LK
z&XYAM5^sKsSrh!qnEj*gxSr2OKL=mv^&X<+61^jYE=$oHa)Bs+F6AM;A%UcTT7&ab
zB!>0#Le?Z!_4DTk9gfMpz~eRay@8VXFwMl19}qcd&l`A^fPj1{8kzsvzp{kx!pgKX
z!~;dHgKk9AF?@6!0PGOjoFC*-Nc1Nf5&1UcR--ukZ(hW<+lT$YKfz-lU|mf1;46H&
znkdB&#|)v2^qR=S+>r8a4B0cX>O_ijl8KbhkQ5I+K1k1+x;i*o;PAJZSHf5MYvId(
z^u=FgS%O@&fdLcKzTy7j>d$;6|8uMu^$Y(_IjKvUa|W@Z`hY;?<8=XoLIgz!Nc3o#
zxgCcoBiMsrh%#)&G6d;j&9D3hnlCs>_2REQu`L`B;o-olDrH;MrkoZHM*L_k9J<=F
z+u@P&f6Fixi%HnY_|j@H2^o}(fL3{Q(5?<A0MF@3bYh6I>y%!lB`)a=5jCE+Fx+bU
zllKJp2KJgN>m=zRQS%$0wzSlTg=|@PS%rTuPYJzM&7$!Z|6X3JD=;wME%ldG`1f*g
zSe-XBZCQI+g?}%v46M+y&@FkFRrvSve8Xxlcv{~v|FR0NF5m7i0<ZFdTMC0&)|N4s
zRrvSvjNxfe3GU#}<t6ZrE=$`24e;;fJAG%tTcCK0e=jc&D^;`6TN;2i_}f3lYXxT-
HvOxa_ewnH1

diff --git a/src/assembler.py b/src/assembler.py
index d4d10a5..eb1c898 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1584,7 +1584,9 @@ class IIForm(Form):
 
             # Combine
             f_loc += np.einsum('igs,gj->ijs', C_loc, Wphi)
-        return f_loc
+
+        # Return local form (a matrix, if the kernel is deterministic)
+        return f_loc[:,:,0] if n_samples==1 else f_loc
 
 
 
@@ -1732,11 +1734,11 @@ class IPForm(Form):
                 Wphij = (wj_g*phij.T).T
 
                 # Combine
-                f_loc += np.einsum('gi,ghs,hj->ijs', Wphii, C_loc, Wphij,
-                                   optimize=True)
+                for i in range(n_samples):
+                    f_loc[:,:,i] += np.dot(Wphii.T, C_loc[:,:,i].dot(Wphij))
 
-        # Return local form
-        return f_loc
+        # Return local form (a matrix, if the kernel is deterministic)
+        return f_loc[:,:,0] if n_samples==1 else f_loc
 
 '''
 class IForm(Form):
@@ -2475,7 +2477,7 @@ class Assembler(object):
                                     #
                                     # Symmetric kernel, store the transpose
                                     #
-                                    aform.update_cellwise(ci, form_loc.transpose((1,0,2)),
+                                    aform.update_cellwise(ci, np.swapaxes(form_loc,0,1),
                                                           dofs = [dofs_trl, dofs_tst])
                                 else:
                                     #
@@ -4103,6 +4105,12 @@ class AssembledForm(object):
             #if vals.shape[1]==1:
             #    print(vals)
             
+            if vals.ndim == 2:
+                #
+                # Matrix without sample dimension
+                #
+                vals = vals[:,:,np.newaxis]
+
             if n_samples > 1:
                 if vals.shape[-1]==1:
                     #
-- 
2.43.0


From 056d31ec9a92d2325fa35c19c5c57340e84dcbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 054/113] fix: add_dirichlet includes all dofs on marked
 half-edges

---
 src/assembler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index eb1c898..ee82200 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3624,7 +3624,15 @@ class Assembler(object):
                                           interior=False,
                                           on_boundary=on_bnd, \
                                           subforest_flag=sf)
-            #print('The Dirichlet Dofs are', dir_dofs)
+
+            # Add dofs on marked half-edges
+            dir_dofs = set(dir_dofs)
+            dir_dofs.update(dh.get_region_dofs(entity_type='half_edge',
+                                               entity_flag=dir_marker,
+                                               interior=False,
+                                               on_boundary=on_bnd, \
+                                               subforest_flag=sf))
+            dir_dofs = sorted(dir_dofs)
         # Number of dirichlet dofs
         n_dirichlet = len(dir_dofs)
 
-- 
2.43.0


From 56295e2d5df8428d4d5003638096db965a8c23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 055/113] fix: add_dirichlet accepts nodal functions with the
 problem's dofs

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index ee82200..960a451 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3649,7 +3649,7 @@ class Assembler(object):
             #
             # Nodal function whose dofs coincide with problem dofs
             #
-            idx = dir_fn.dof2idx(dir_dofs)
+            idx = dir_fn.basis().d2i(dir_dofs)
             dir_vals = dir_fn.data()[idx,:]
         else:
             #
-- 
2.43.0


From dcf9b3ad3d2184218d4ede80da4cd56537d37e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 056/113] fix: add_hanging_nodes uses the hanging nodes of the
 trial function's submesh

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 960a451..d204f6c 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3698,7 +3698,7 @@ class Assembler(object):
 
         # Set hanging nodes
         self.__hanging_nodes[i_problem] \
-            = phi.dofhandler().get_hanging_nodes(subforest_flag=self.subforest_flag())
+            = phi.dofhandler().get_hanging_nodes(subforest_flag=phi.subforest_flag())
 
 
     def get_hanging_nodes(self, i_problem=0):
-- 
2.43.0


From f4642fd53790538469777f104e3f380f643ab936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 057/113] fix: Assembler.solve works on submeshes

---
 src/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index d204f6c..aecd7d9 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3791,13 +3791,13 @@ class Assembler(object):
         # Solve linear system on interior dofs
         #
         int_dofs = self.get_dofs('interior', i_problem=i_problem)
-        u[int_dofs] = spla.spsolve(A,b-x0)
+        u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0)
 
         #
         # Resolve Dirichlet conditions
         #
         dir_dofs, dir_vals = self.get_dirichlet(i_problem=i_problem, asdict=False)
-        u[dir_dofs] = dir_vals[:,0]
+        u[phi_lin.d2i(dir_dofs)] = dir_vals[:,0]
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
-- 
2.43.0


From 105112b8b8186eab559fe8ce966b81d050801308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 058/113] fix: Assembler.solve works without Dirichlet
 conditions

---
 src/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index aecd7d9..13cc576 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3797,7 +3797,8 @@ class Assembler(object):
         # Resolve Dirichlet conditions
         #
         dir_dofs, dir_vals = self.get_dirichlet(i_problem=i_problem, asdict=False)
-        u[phi_lin.d2i(dir_dofs)] = dir_vals[:,0]
+        if len(dir_dofs)>0:
+            u[phi_lin.d2i(dir_dofs)] = dir_vals[:,0]
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
-- 
2.43.0


From 7f2342e81a0da55c4f625419b66cc77a4730961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 059/113] fix: Assembler.solve uses the Dirichlet values of the
 requested sample

---
 src/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 13cc576..63cee4f 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3798,7 +3798,8 @@ class Assembler(object):
         #
         dir_dofs, dir_vals = self.get_dirichlet(i_problem=i_problem, asdict=False)
         if len(dir_dofs)>0:
-            u[phi_lin.d2i(dir_dofs)] = dir_vals[:,0]
+            i_dir = i_matrix if dir_vals.shape[1]>1 else 0
+            u[phi_lin.d2i(dir_dofs)] = dir_vals[:,i_dir]
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
-- 
2.43.0


From 0bbed25c95a5763f31dd51276957c81ef338cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 060/113] fix: Assembler.solve accepts a list of vector samples

---
 src/assembler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 63cee4f..ad46f9b 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3782,16 +3782,23 @@ class Assembler(object):
         # Assembled Dirichlet BC
         x0 = self.assembled_bnd(i_problem=i_problem, i_sample=i_matrix)
 
+        if type(i_vector) is list:
+            #
+            # Multiple right hand sides, stored columnwise
+            #
+            b = b.T
+            x0 = x0[:,np.newaxis]
+
         #
         # Initialize solution array
         #
-        u = np.zeros(n_dofs)
+        u = np.zeros((n_dofs,) + b.shape[1:])
 
         #
         # Solve linear system on interior dofs
         #
         int_dofs = self.get_dofs('interior', i_problem=i_problem)
-        u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0)
+        u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0).reshape(b.shape)
 
         #
         # Resolve Dirichlet conditions
@@ -3799,7 +3806,8 @@ class Assembler(object):
         dir_dofs, dir_vals = self.get_dirichlet(i_problem=i_problem, asdict=False)
         if len(dir_dofs)>0:
             i_dir = i_matrix if dir_vals.shape[1]>1 else 0
-            u[phi_lin.d2i(dir_dofs)] = dir_vals[:,i_dir]
+            u[phi_lin.d2i(dir_dofs)] = \
+                dir_vals[:,i_dir].reshape((-1,) + (1,)*(u.ndim-1))
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
-- 
2.43.0


From a83e40478b9b4214836f2b8641df01a0fc5af887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 061/113] fix: add_dirichlet does nothing if no dofs are marked

---
 src/assembler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index ad46f9b..8920e1c 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3636,6 +3636,12 @@ class Assembler(object):
         # Number of dirichlet dofs
         n_dirichlet = len(dir_dofs)
 
+        if n_dirichlet==0:
+            #
+            # No dofs in the Dirichlet region
+            #
+            return
+
         #
         # Evaluate dirichlet function at vertices associated with dirichlet dofs
         #
-- 
2.43.0


From 01011130b8482e1f5fc900b29079e318b7a0fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 062/113] fix: affine constraint terms of linear systems are
 ordered by equation

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index ab0fd98..d6bf4e6 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -342,7 +342,7 @@ class LinearSystem(object):
         # Define constraint vector
         # 
         d = np.zeros(n_dofs)
-        d[c_dofs] = np.array(constraints['affine_terms'])
+        d[self.dof2eqn(c_dofs)] = np.array(constraints['affine_terms'])
         
         # Store constraint vector
         self.__d = d
-- 
2.43.0


From 5c6cc9cef8d411aff099de9cdd51f96fc9ca5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 063/113] fix: constraining the right hand side distributes the
 entries of all hanging nodes

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index d6bf4e6..5baafee 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -743,7 +743,7 @@ class LinearSystem(object):
             # Set b=0 at the constraints
             # 
             zc = np.ones(n_dofs)
-            zc[c_dofs] = 0
+            zc[k] = 0
             Izc = sparse.dia_matrix((zc,0),shape=(n_dofs,n_dofs)) 
             b = Izc.dot(b)
             
-- 
2.43.0


From 70e26f83cfabd625fdd80b1612666468aafdd68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 064/113] fix: linear systems constrain their matrix once

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index 5baafee..48fb1fc 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -542,7 +542,7 @@ class LinearSystem(object):
         """
         Determine whether the system matrix has been constrained
         """
-        self.__A_is_constrained
+        return self.__A_is_constrained
         
         
     def invert_matrix(self, b=None, factor=False):
-- 
2.43.0


From 2a2ebd5e1ab76b313f8088556ce0522f38cfdaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 065/113] fix: linear systems keep their constraints to
 themselves

---
 src/solver.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 48fb1fc..581516a 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -106,6 +106,21 @@ class LinearSystem(object):
         # 
         subforest_flag = self.get_basis().subforest_flag()
         self.get_dofhandler().set_hanging_nodes(subforest_flag=subforest_flag)
+        hanging_nodes = \
+            self.get_dofhandler().get_hanging_nodes(subforest_flag=subforest_flag)
+        
+        #
+        # Initialize the system's constraints
+        # 
+        self.__constraints = {'constrained_dofs': [],
+                              'supporting_dofs': [],
+                              'coefficients': [],
+                              'affine_terms': []}
+        for dof, (supporting_dofs, coefficients) in hanging_nodes.items():
+            self.__constraints['constrained_dofs'].append(dof)
+            self.__constraints['supporting_dofs'].append(supporting_dofs)
+            self.__constraints['coefficients'].append(coefficients)
+            self.__constraints['affine_terms'].append(0)
         
         # 
         # Store Bilinear Form
@@ -284,7 +299,7 @@ class LinearSystem(object):
             x_dir = convert_to_array(dirichlet_vertices)
             dirichlet_vals = dirichlet_function.eval(x_dir).ravel()
             
-        constraints = dh.constraints
+        constraints = self.__constraints
         for dof, val in zip(dirichlet_dofs, dirichlet_vals):
             constraints['constrained_dofs'].append(dof)
             constraints['supporting_dofs'].append([])
@@ -307,7 +322,7 @@ class LinearSystem(object):
         #    
         # Define constraint matrix
         #
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = np.array(constraints['constrained_dofs'], dtype=int)
         c_rows = []
         c_cols = []
@@ -417,7 +432,7 @@ class LinearSystem(object):
         #
         self.column_records = []
         
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = constraints['constrained_dofs']
         
         #
@@ -715,7 +730,7 @@ class LinearSystem(object):
         b = self.get_rhs()
         n_dofs = len(self.get_dofs())
             
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = constraints['constrained_dofs']
         C = self.get_C()
         d = self.get_d()
-- 
2.43.0


From d09c0ea201c95ee52cc325508d1645287fc4be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 066/113] fix: constrained systems whose diagonal averages to
 zero remain regular

---
 src/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index 581516a..1556721 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -522,7 +522,9 @@ class LinearSystem(object):
             # If there are unconstrained dofs, use average diagonal to scale 
             # 
             c_eqns = self.dof2eqn(c_dofs)
-            ave_vec[c_eqns] = (np.sum(a_diag)-n_cdofs)/(n_dofs-n_cdofs)
+            average = (np.sum(a_diag)-n_cdofs)/(n_dofs-n_cdofs)
+            if average != 0:
+                ave_vec[c_eqns] = average
         I_ave = sparse.dia_matrix((ave_vec,0), shape=(n_dofs,n_dofs))
         A = A.dot(I_ave)
         
-- 
2.43.0


From d60151b80cb36cc6875ab94f7ac7f16e839b063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 067/113] fix: factor_matrix uses Cholesky for symmetric
 positive definite matrices only

---
 src/solver.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 1556721..d8014b7 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -9,6 +9,7 @@ from diagnostics import Verbose
 # Optional: CHOLMOD for fast sparse Cholesky (scikit-sparse)
 try:
     from sksparse.cholmod import cholesky as cholmod_cholesky
+    from sksparse.cholmod import CholmodNotPositiveDefiniteError
 except Exception:
     cholmod_cholesky = None
 
@@ -629,8 +630,21 @@ class LinearSystem(object):
         assert A is not None, 'No system matrix to factor.'
         A = A.tocsc()
 
-        if cholmod_cholesky is not None:
-            factor = cholmod_cholesky(A)
+        factor = None
+        if cholmod_cholesky is not None and \
+            abs(A-A.T).max() <= 1e-12*abs(A).max():
+            #
+            # Symmetric matrix: try Cholesky
+            #
+            try:
+                factor = cholmod_cholesky(A)
+            except CholmodNotPositiveDefiniteError:
+                #
+                # Matrix not positive definite
+                #
+                factor = None
+
+        if factor is not None:
 
             # Wrapper to present a uniform `.solve(B)` interface across
             # CHOLMOD (callable factor) and SciPy factorized fallback.
-- 
2.43.0


From 6b8c79d8f241cd14ad037da7a8c398118d5f9e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 068/113] fix: modified Cholesky factors satisfy P*(C+E)*P' =
 L*D*L', as documented

---
 src/spd.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index afbd2a8..9593187 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -458,8 +458,12 @@ class CholeskyDecomposition(SPDMatrix):
                 temp = np.dot(U,np.dot(T,U.T))
                 DMC[k:k+2,k:k+2] = (temp + temp.T)/2  # Ensure symmetric.
                 k += 2
+        #
+        # Permute rows, so that L is unit lower triangular and P*C*P' = L*D*L'
+        # 
+        L = L[p,:]
         P = np.eye(n)
-        P = P[:,p]
+        P = P[p,:]
         
         #P = sp.diags([1],0,shape=(n,n), format='coo') 
         #P.row = P.row[p]
@@ -620,11 +624,10 @@ class CholeskyDecomposition(SPDMatrix):
             # Use Modified Cholesky
             # 
             L, D, P, dummy = self.get_factors()
-            PL = P.dot(L)
-            y = linalg.solve_triangular(PL,P.dot(b),lower=True, unit_diagonal=True)
+            y = linalg.solve_triangular(L,P.dot(b),lower=True, unit_diagonal=True)
             Dinv = sp.diags(1./np.diagonal(D))
             z = Dinv.dot(y)
-            x = linalg.solve_triangular(PL.T,z,lower=False,unit_diagonal=True)
+            x = linalg.solve_triangular(L.T,z,lower=False,unit_diagonal=True)
             return P.T.dot(x)
 
     def sqrt_dot(self,b,transpose=False):
-- 
2.43.0


From 9c478f5f5359479766b908f7fe9130ff0e0b30bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 069/113] fix: sqrt_solve uses the lower triangular factor of
 degenerate matrices

---
 src/spd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spd.py b/src/spd.py
index 9593187..7c8bc87 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -774,7 +774,7 @@ class CholeskyDecomposition(SPDMatrix):
                 #
                 # Solve Wx = b
                 # 
-                return linalg.solve_triangular(L.dot(sqrtD),P.dot(b)) 
+                return linalg.solve_triangular(L.dot(sqrtD),P.dot(b),lower=True)
                 #return P.T.dot(linalg.solve_triangular(L,sqrtD.dot(b),lower=True))
         
         """
-- 
2.43.0


From a1188e18944da9874f83ec2c3245f17ae4ddca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 070/113] fix: modified Cholesky solves and square roots
 include the 2-by-2 blocks of D

---
 src/spd.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index 7c8bc87..c921e13 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -476,6 +476,15 @@ class CholeskyDecomposition(SPDMatrix):
         return L, DMC, P, D
 
 
+    def sqrt_block_diagonal(self,D):
+        """
+        Returns the symmetric square root of the block diagonal, positive 
+        definite matrix D
+        """
+        d, U = linalg.eigh(D)
+        return U.dot(np.diag(np.sqrt(d)).dot(U.T))
+
+
     def set_factors(self,L):
         """
         Store the Cholesky factorization
@@ -625,8 +634,7 @@ class CholeskyDecomposition(SPDMatrix):
             # 
             L, D, P, dummy = self.get_factors()
             y = linalg.solve_triangular(L,P.dot(b),lower=True, unit_diagonal=True)
-            Dinv = sp.diags(1./np.diagonal(D))
-            z = Dinv.dot(y)
+            z = linalg.solve(D,y)
             x = linalg.solve_triangular(L.T,z,lower=False,unit_diagonal=True)
             return P.T.dot(x)
 
@@ -689,7 +697,7 @@ class CholeskyDecomposition(SPDMatrix):
             # Degenerate matrix: 0 < C+E = P'*L*D*L'*P = W*W'
             # 
             L, D, P, D0 = self.get_factors()
-            sqrtD = np.diag(np.sqrt(np.diag(D)))
+            sqrtD = self.sqrt_block_diagonal(D)
             if transpose:
                 #
                 # W'*b
@@ -763,18 +771,21 @@ class CholeskyDecomposition(SPDMatrix):
             #  C+E = P'*L*sqrtD*sqrtD*L'*P = W*W'
             # 
             L, D, P, D0 = self.get_factors()
-            sqrtD = np.diag(np.sqrt(np.diag(D)))
+            sqrtD = self.sqrt_block_diagonal(D)
             if transpose:
                 #
                 # Solve W' x = b
                 # 
-                return P.T.dot(linalg.solve_triangular(sqrtD.dot(L.T),b,lower=False))
+                y = linalg.solve(sqrtD,b)
+                return P.T.dot(linalg.solve_triangular(L.T,y,lower=False,\
+                                                       unit_diagonal=True))
                 #return sqrtD.dot(linalg.solve_triangular(L.T,P.dot(b),lower=False))
             else:
                 #
                 # Solve Wx = b
                 # 
-                return linalg.solve_triangular(L.dot(sqrtD),P.dot(b),lower=True)
+                y = linalg.solve_triangular(L,P.dot(b),lower=True,unit_diagonal=True)
+                return linalg.solve(sqrtD,y)
                 #return P.T.dot(linalg.solve_triangular(L,sqrtD.dot(b),lower=True))
         
         """
-- 
2.43.0


From 3b7166337e7f5738ba25ef8ba7271d1a4f57c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 071/113] fix: SPDMatrix.is_degenerate and set_rank use the
 methods of the class

---
 src/spd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index c921e13..b0c75b9 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -113,7 +113,7 @@ class SPDMatrix(object):
         """
         assert isinstance(rank, int), 'Input "rank" should be an integer.'
         assert rank >= 0, 'Input "rank" should be non-negative.'
-        assert rank <= self.size(), 'Input "rank" should be less than or equal to the size of the matrix.'
+        assert rank <= self.get_size(), 'Input "rank" should be less than or equal to the size of the matrix.'
         self.__rank = rank
 
 
@@ -163,7 +163,7 @@ class SPDMatrix(object):
         - bool
             True if the matrix is degenerate, False otherwise.
         """
-        return self.rank() < self.size()
+        return self.get_rank() < self.get_size()
 
 
     def decompose(self):
-- 
2.43.0


From dbf009948b15b16d918cf91eaea8ba45744cd5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 072/113] fix: eigendecompositions of sparse matrices

---
 src/spd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spd.py b/src/spd.py
index b0c75b9..cdea31e 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -911,7 +911,10 @@ class EigenDecomposition(SPDMatrix):
             # 
             C = self.get_matrix()
             eps = np.finfo(float).eps
-            delta = np.sqrt(eps)*linalg.norm(C, 'fro')
+            if sp.issparse(C):
+                delta = np.sqrt(eps)*spla.norm(C, 'fro')
+            else:
+                delta = np.sqrt(eps)*linalg.norm(C, 'fro')
 
         # Check whether delta is non-negative
         assert delta >= 0, 'Input "delta" should be non-negative.'
@@ -943,6 +946,8 @@ class EigenDecomposition(SPDMatrix):
             # 
             is_generalized = True
             M = self.get_mass_matrix()
+            if sp.issparse(M):
+                M = M.toarray()
         else:
             #
             # Standard eigendecomposition
-- 
2.43.0


From 56a241deb74c3ea92a518ebeb25f811a2e6b6a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 073/113] fix: the generalized eigendecomposition reconstructs
 the matrix itself

---
 src/spd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index cdea31e..ef2c1a6 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -1026,12 +1026,15 @@ class EigenDecomposition(SPDMatrix):
         Reconstruct the matrix from its eigendecomposition
         """
         d, V = self.get_factors()
-        C = V.dot(np.diag(d).dot(V.T))
         if self.has_mass_matrix():
+            #
+            # C = M*V*D*V'*M, since V'*M*V = I
+            # 
             M = self.get_mass_matrix()
-            return C, M
+            MV = M.dot(V)
+            return MV.dot(np.diag(d).dot(MV.T)), M
         else:
-            return C
+            return V.dot(np.diag(d).dot(V.T))
     
 
     def dot(self,b):
-- 
2.43.0


From 5b9cbb87362268c771990b9a4ae4c80131af695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 074/113] fix: sqrt_solve inverts the factors of generalized
 eigendecompositions

---
 src/spd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spd.py b/src/spd.py
index ef2c1a6..715f554 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -1129,6 +1129,9 @@ class EigenDecomposition(SPDMatrix):
         """
         d, V = self.get_factors()
         sqrtD_inv = diagonal_pseudo_inverse(np.sqrt(d),eps=eps)
+        if self.has_mass_matrix():
+            # Inverse transpose of V, since V'*M*V = I
+            V = self.get_mass_matrix().dot(V)
         if transpose:
             #
             # Solve sqrtD*V'x = b
-- 
2.43.0


From 1339eb50abeef4e47fd8acfeb5e69ff10e1b533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 075/113] fix: anisotropic distances keep the signs of the
 differences

---
 src/gmrf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 0461cde..a2587bf 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -223,14 +223,14 @@ def distance(x, y, M=None, periodic=False, box=None):
         #
         # 2D
         #   
-        dx = np.abs(x[:,0]-y[:,0])
-        dy = np.abs(x[:,1]-y[:,1])
+        dx = x[:,0]-y[:,0]
+        dy = x[:,1]-y[:,1]
         if periodic:
             assert box is not None, \
             'If periodic, bounding box must be specified.'
             x_min, x_max, y_min, y_max = box
-            dx = np.min(np.array([dx,(x_max-x_min)-dx]),axis=0)
-            dy = np.min(np.array([dy,(y_max-y_min)-dy]),axis=0)
+            dx = dx - (x_max-x_min)*np.round(dx/(x_max-x_min))
+            dy = dy - (y_max-y_min)*np.round(dy/(y_max-y_min))
         
         if M is None:
             return np.sqrt(dx**2 + dy**2)
-- 
2.43.0


From a6fb62ac75e174a734a12a08ee6fe7906ca1eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 076/113] fix: the linear covariance in 1D includes sgm^2 when
 M is given

---
 src/gmrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index a2587bf..72c1136 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -291,7 +291,7 @@ def linear(x,y,sgm=1, M=None):
             return sgm**2 + x*y
         else:
             assert isinstance(M,Real), 'Input "M" should be a scalar.'
-            return x*M*y
+            return sgm**2 + x*M*y
         
     elif dim==2:
         #
-- 
2.43.0


From f93b1cfeb517c4335045f5432b4e4f327d300300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 077/113] fix: the matern covariance is sgm^2 at distance zero

---
 src/gmrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 72c1136..45f15b4 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -354,9 +354,9 @@ def matern(x, y, sgm, nu, l, M=None, periodic=False, box=None):
     K = sgm**2*2**(1-nu)/gamma(nu)*(np.sqrt(2*nu)*d/l)**nu*\
         kv(nu,np.sqrt(2*nu)*d/l)
     #
-    # Modified Bessel function undefined at d=0, covariance should be 1
+    # Modified Bessel function undefined at d=0, covariance should be sgm^2
     #
-    K[np.isnan(K)] = 1
+    K[np.isnan(K)] = sgm**2
     return K
     
     
-- 
2.43.0


From 6b32fe4d15f2ac762b94b591aaa728a6565db52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 078/113] fix: KL_sample uses the given noise for the selected
 eigenvalues

---
 src/gmrf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 45f15b4..5c5535d 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1215,13 +1215,14 @@ class GaussianField(object):
         
         # Sample 
         if z is None:
-            z = np.random.normal(size=(self.size(), n_samples))
+            z = np.random.normal(size=(i_max-i_min+1, n_samples))
         else:
             assert z.shape[0] == i_max-i_min+1, \
-                'Input "z" should have the same number of rows as the random vector.'
+                'Input "z" should have as many rows as there are eigenvalues in the range.'
+            n_samples = z.shape[1]
 
         # Compute samples
-        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z[i_min:i_max+1,:])) + np.tile(mean,(1,n_samples))
+        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z)) + np.tile(mean,(1,n_samples))
     
 
 
-- 
2.43.0


From b87265a68f499b6efd9fd0f174ab9adab47ee499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 079/113] fix: covariance functions can be given as maps, as
 documented

---
 src/gmrf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 5c5535d..ec6a00e 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -589,7 +589,10 @@ class Covariance(EigenDecomposition):
  
         # Store results
         dim = self.dofhandler().mesh.dim()
-        k = Explicit(f=cov_fn, parameters=parameters, n_variables=2, dim=dim)
+        if isinstance(cov_fn, Map):
+            k = cov_fn
+        else:
+            k = Explicit(f=cov_fn, parameters=parameters, n_variables=2, dim=dim)
         self.__kernel = Kernel(f=k)
  
         
-- 
2.43.0


From bc046132ea3b212a3ce283773e32dcb23bd7a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 080/113] fix: GaussianField.b returns the canonical mean

---
 src/gmrf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index ec6a00e..ef8a587 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1131,9 +1131,9 @@ class GaussianField(object):
         """
         Returns the vector of central tendency in canonical form
         """
-        if self.__b is None:
-            self.set_b()
-        return self.__b
+        if self.get_canonical_mean() is None:
+            self.compute_canonical_mean()
+        return self.get_canonical_mean()
 
 
     def covariance(self):
-- 
2.43.0


From 94ddc8b208d68f736583218c24588dd2f7fa9500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 081/113] fix: the canonical mean inverts the covariance that
 is sampled

---
 src/gmrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index ef8a587..7deefbb 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -855,7 +855,7 @@ class GaussianField(object):
             b = Q.dot(self.mean())
         else:
             K = self.covariance()
-            b = K.solve(self.mean())
+            b = K.sqrt_solve(K.sqrt_solve(self.mean()), transpose=True)
         self.__canonical_mean = b
 
 
-- 
2.43.0


From c51c7b65d074a238442c7a3564f30b1fb45c811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 082/113] fix: fields given by canonical parameters have the
 corresponding mean

---
 src/gmrf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gmrf.py b/src/gmrf.py
index 7deefbb..315b530 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -791,6 +791,11 @@ class GaussianField(object):
         # Store support
         self.set_support(support)
 
+        # Mean of a field given in terms of its canonical parameters
+        if mean is None and canonical_mean is not None:
+            if covariance is not None or precision is not None:
+                self.compute_mean()
+
 
     def set_mean(self, mean):
         """
-- 
2.43.0


From 84526ff2b19fe6b9d29a8366aeb43c05ffc5122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 083/113] fix: samples use the mean column asked for and live
 on the support of the field

---
 src/gmrf.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 315b530..e5f82dd 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1357,32 +1357,25 @@ class GaussianField(object):
             # Return Lz + mean
             #
             Lz = C.sqrt_dot(z,transpose=False)
-            return  Lz + np.tile(self.get_mean(),(1,n_samples))
     
-        elif mode=='precision':
+        elif mode=='precision' or mode=='canonical':
             #
             # Return L^{-T} z + mean
             #
             Lz = C.sqrt_solve(z,transpose=True)
-            return Lz + np.tile(self.get_mean(),(1,n_samples))
-                                   
-        elif mode=='canonical':
-            #
-            # Cholesky decomposition of the precision matrix 
-            #
-
-            # Compute the mean from the canonical mean
-            mean = self.get_mean()
-            if mean is None:
-                self.compute_mean()
-                mean = self.get_mean()
-            Lz = C.sqrt_solve(z,transpose=True)
-            return Lz + np.tile(mean,(1,n_samples))
 
         else:
             raise Exception('Input "mode" not recognized. '+\
                             'Use "covariance", "precision", or "canonical".')
             
+        #
+        # Map from the support to the full space
+        #
+        V = self.support()
+        if V is not None:
+            Lz = V.dot(Lz)
+
+        return Lz + self.mean(m_col, n_samples)
     
     
     def condition(self, A, e, Ko=0, output='sample', n_samples=1, z=None, 
-- 
2.43.0


From ade451dbb2c1b19e52bf9fd8f51c2ecdf93271a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 084/113] fix: update_support restricts the field to the range
 of its covariance or precision

---
 src/gmrf.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index e5f82dd..fe84d8b 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1044,33 +1044,38 @@ class GaussianField(object):
             # 
             cov = self.covariance()
             assert cov is not None, 'No covariance specified.'
-            #if not cov.has_eig_decomp():
-            #    cov.compute_eig_decomp(delta=0)
-            d, V = cov.get_factors()
+            K = cov
         elif mode=='precision':
             #
             # Use (reduced) precision matrix
             # 
             prec = self.precision()
             assert prec is not None, 'No precision specified'
-            if not prec.has_eig_decomp():
-                prec.compute_eig_decomp(delta=0)
-            d, V = prec.compute_eig_decomp()
+            K = prec
         else:
             raise Exception('Input "mode" should be "covariance" or "precision"')
         
+        #
+        # Eigendecomposition that maintains zero eigenvalues
+        #
+        if isinstance(K, EigenDecomposition) and K.has_mass_matrix():
+            K = K.dot(np.identity(K.get_size()))
+        else:
+            K = K.get_matrix()
+        d, V = EigenDecomposition(K, delta=0).get_factors()
+
         # Determine non-zero eigenvalues 
         i_support = np.abs(d)>tol  
         m = np.sum(i_support)
         
         # Compute new (diagonal) covariance/precision on reduced subspace
-        D = sp.spdiags(d[i_support], 0, m, m) 
+        D = np.diag(d[i_support])
         
         # Update precision/covariance matrix
         if mode=='covariance':
-            self.__covariance = SPDMatrix(D)
+            self.__covariance = EigenDecomposition(D, delta=0)
         elif mode=='precision':
-            self.__precision = SPDMatrix(D)
+            self.__precision = EigenDecomposition(D, delta=0)
         
         # Define new set of support vectors
         W = self.support()
-- 
2.43.0


From cdf30e045f4762cdfb7234ef11ef280f7fab317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 085/113] fix: truncate returns the field of the truncated
 expansion

---
 src/gmrf.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index fe84d8b..31a454c 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1267,19 +1267,15 @@ class GaussianField(object):
         mean = self.mean()
         
         # Truncate the eigen-decomposition
-        d, V = self.covariance().get_eig_decomp()
+        d, V = self.covariance().get_factors()
         dk = d[:level]
         Vk = V[:,:level]
         
         # Define truncated Covariance matrix
-        K = SPDMatrix(Vk.dot(np.diag(dk)).dot(Vk.T))
-        K.set_eig_decomp(dk, Vk)
+        K = EigenDecomposition(Vk.dot(np.diag(dk)).dot(Vk.T), delta=0)
         
         # Return Gaussian field with truncated covariance
-        tht = GaussianField(self.size(), mean=mean, K=K)
-        tht.set_support(Vk)
-        
-        return tht
+        return GaussianField(self.size(), mean=mean, covariance=K)
         
     
     
-- 
2.43.0


From cb3dc35c43391be8fca0d03c4ddd98b83830222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 086/113] fix: fields conditioned on hard constraints satisfy
 them, in both modes

---
 src/gmrf.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 31a454c..9fce8bf 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1507,11 +1507,16 @@ class GaussianField(object):
                 
                 # Conditional covariance
                 U = linalg.solve(AKAT, KAT.T)
-                K_cnd = K.get_matrix() - KAT.dot(U)
+                I = np.identity(Ak.shape[1])
+                if mode=='covariance':
+                    K_cnd = K.dot(I) - KAT.dot(U)
+                elif mode=='precision':
+                    K_cnd = Q.solve(I) - KAT.dot(U)
                 K_cnd = Vk.dot(K_cnd.dot(Vk.T))
                 
-                print('K_cnd', K_cnd.shape)
-                print('K_cnd', K_cnd[0:10,0:10])
+                # Maintain zero eigenvalues 
+                K_cnd = EigenDecomposition(0.5*(K_cnd + K_cnd.T), delta=0)
+                
                 # Define random field 
                 X = GaussianField(self.size(), mean=mu_cnd, covariance=K_cnd)
                 X.update_support()
-- 
2.43.0


From 5a45eb06e3cbe2cdde7b4bb415a75f24cb6c2713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 087/113] fix: fields can be conditioned on soft constraints,
 as documented

---
 src/gmrf.py | 52 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 9fce8bf..0a50114 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1531,15 +1531,22 @@ class GaussianField(object):
             # Soft constraint
             # 
             
+            #
+            # Reduce to active subspace
+            # 
+            Ad = A.toarray() if sp.issparse(A) else A
+            if Vk is None:
+                Vk = np.identity(n)
+            Ak = Ad.dot(Vk)
+            
             #
             # Compute K*A.T and A*K*A.T
             #   
             if mode=='covariance':    
-                KAT  = K.dot(A.T)
-                AKAT = A.dot(KAT)
+                KAT  = K.dot(Ak.T)
             elif mode=='precision':
-                KAT = Q.solve(A.T)
-                AKAT = A.dot(KAT)
+                KAT = Q.solve(Ak.T)
+            AKAT = Ak.dot(KAT)
                 
             if output=='sample':
                 #
@@ -1547,34 +1554,47 @@ class GaussianField(object):
                 #
 
                 # Sample unconditioned field 
-                Xs = self.sample(z=z, n_samples=n_samples, mode=mode, 
-                                 decomposition=decomposition)
+                Xs = self.sample(z=z, n_samples=n_samples, mode=mode)
                 
                 # Sample e|Ax
-                eps = GaussianField(A.shape[0], mean=e, K=Ko, mode='covariance')
-                e = eps.sample(z=z, n_samples=n_samples)
+                eps = GaussianField(Ad.shape[0], mean=e, covariance=Ko)
+                e = eps.sample(n_samples=Xs.shape[1])
                 
                 # Compute residual
-                r = A.dot(Xs)-e
+                r = Ad.dot(Xs)-e
                 
                 # Conditional covariance 
                 U = linalg.solve(Ko+AKAT,r)
                 
                 # Apply correction 
-                X = Xs - KAT.dot(U)
+                X = Xs - Vk.dot(KAT.dot(U))
                 
                 return X
             
             elif output=='field':
                 # Conditional mean
-                mu_cnd = mu - A.T.dot(linalg.solve(Ko,e))
+                r = Ad.dot(mu)-e
+                mu_cnd = mu - Vk.dot(KAT.dot(linalg.solve(Ko+AKAT,r)))
                 
-                # Conditional precision
-                Q_cnd = Q + A.T.dot(linalg.solve(Ko,A))
+                if mode=='covariance':
+                    # Conditional covariance
+                    I = np.identity(Ak.shape[1])
+                    K_cnd = K.dot(I) - KAT.dot(linalg.solve(Ko+AKAT,KAT.T))
+                    K_cnd = EigenDecomposition(0.5*(K_cnd + K_cnd.T), delta=0)
                 
-                # Random field
-                X = GaussianField(self.size(), mean=mu_cnd, K=Q_cnd, 
-                                  mode='precision')
+                    # Random field
+                    X = GaussianField(self.size(), mean=mu_cnd, 
+                                      covariance=K_cnd, support=self.support())
+                elif mode=='precision':
+                    # Conditional precision
+                    Q_cnd = Q.get_matrix() 
+                    if sp.issparse(Q_cnd):
+                        Q_cnd = Q_cnd.toarray()
+                    Q_cnd = Q_cnd + Ak.T.dot(linalg.solve(Ko,Ak))
+                
+                    # Random field
+                    X = GaussianField(self.size(), mean=mu_cnd, 
+                                      precision=Q_cnd, support=self.support())
                 
                 return X
         """    
-- 
2.43.0


From 2ee67e413af671b0681e5694cc7c58d743238807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 088/113] fix: the Hessian of the inverse cell map can be
 requested without its Jacobian

---
 src/mesh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 0bea31c..ad59126 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -4048,7 +4048,7 @@ class QuadCell(Cell, Tree):
             # Initialize map gradients (mg) dictionary
             mg = {}
 
-            if jac_r2p or jac_p2r:
+            if jac_r2p or jac_p2r or hess_p2r:
                 #
                 # Compute Jacobian of the forward mapping
                 #
@@ -4063,7 +4063,7 @@ class QuadCell(Cell, Tree):
                 #
                 mg['jac_r2p'] = [np.array([[xs[i], xt[i]], [ys[i], yt[i]]])\
                                  for i in range(n)]
-            if jac_p2r:
+            if jac_p2r or hess_p2r:
                 #
                 # Jacobian of mapping from physical to reference region
                 #
@@ -4074,6 +4074,7 @@ class QuadCell(Cell, Tree):
                 sy = -xt/Det
                 tx = -ys/Det
                 ty =  xs/Det
+            if jac_p2r:
                 mg['jac_p2r'] = [np.array([[sx[i], sy[i]],[tx[i], ty[i]]])\
                                  for i in range(n)]
             if hess_r2p:
-- 
2.43.0


From 1070d3530b8bf9177f6d4048d9a89cfa767e48d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:16 +0000
Subject: [PATCH 089/113] fix: the vertex of a dof can be requested as seen
 from one of its cells

---
 src/fem.py | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index e148159..4defc66 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2224,7 +2224,7 @@ class DofHandler(object):
             # Retrieve cell's dofs
             dofs = self.get_cell_dofs(cell)
 
-            if not all([dof in self.__dof_vertices for dof in dofs]):
+            if not all([cell in self.__dof_vertices.get(dof, {}) for dof in dofs]):
                 #
                 # Not all dofs in cell have been a assigned a vertex
                 #
@@ -2232,19 +2232,13 @@ class DofHandler(object):
                 # Compute cell vertices
                 x = cell.reference_map(x_ref)
 
-                # Add vertices to dictionary
+                # Add vertices to dictionary, one for each cell (on periodic
+                # meshes, the vertex depends on the cell)
                 for i in range(len(dofs)):
                     dof = dofs[i]
                     if dof not in self.__dof_vertices:
                         self.__dof_vertices[dof] = {}
-                        self.__dof_vertices[dof][cell] = x[i,:]
-                    else:
-                        if any([np.allclose(x[i,:], vertex) for vertex in \
-                                self.__dof_vertices[dof].values()]):
-                            #
-                            # Periodic vertex
-                            #
-                            self.__dof_vertices[dof][cell] = x[i,:]
+                    self.__dof_vertices[dof][cell] = x[i,:]
 
 
     def get_dof_vertices(self, dofs=None, cells=None, subforest_flag=None, \
@@ -2268,29 +2262,18 @@ class DofHandler(object):
             dofs = self.get_region_dofs(subforest_flag=subforest_flag)
         vertices = []
         for dof in dofs:
-            if len(self.__dof_vertices[dof])==1:
+            if cells is not None and dof in cells:
                 #
-                # Only one cell for given dof
+                # If cell specified, return the `right' vertex
                 #
-                for vertex in self.__dof_vertices[dof].values():
-                    vertices.append(vertex)
+                vertices.append(self.__dof_vertices[dof][cells[dof]])
             else:
                 #
-                # Multiple cells contain the same dof
+                # No cell specified, return the first vertex
                 #
-                if cells is not None:
-                    if dof in cells:
-                        #
-                        # If cell specified, return the `right' vertex
-                        #
-                        vertices.append(self.__dof_vertices[dof][cells[dof]])
-                else:
-                    #
-                    # No cell specified, return the first vertex
-                    #
-                    for vertex in self.__dof_vertices[dof].values():
-                        vertices.append(vertex)
-                        break
+                for vertex in self.__dof_vertices[dof].values():
+                    vertices.append(vertex)
+                    break
         if is_singleton:
             return vertices[0]
         else:
-- 
2.43.0


From c50e9700cb6e9e6ba3d2ebd767cf9103bb68c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:16 +0000
Subject: [PATCH 090/113] fix: nodal functions accept shape functions without
 dofs, and dofs in arrays, as documented

---
 src/function.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/function.py b/src/function.py
index 7a05baa..d12befc 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1873,17 +1873,18 @@ class Nodal(Map):
                 #
                 # Get local dofs if not specified
                 #
-                dofs = [b.dofs(cell) for b in phi] 
+                cells = cell if type(cell) in (tuple, list) else [cell]*n_variables
+                dofs = [self.basis().dofs(c) for c in cells] 
             
             
-            if type(dofs) is tuple:
-                # Convert tuple to list
+            if type(dofs) in (tuple, np.ndarray):
+                # Convert tuple or array to list
                 dofs = list(dofs)
             
             assert type(dofs) is list, \
             'Dofs should be passed as list'
             
-            if all([type(dof) is int for dof in dofs]):
+            if all([isinstance(dof, (int, np.integer)) for dof in dofs]):
                 #
                 # list of numbers -> 1 variable
                 # 
-- 
2.43.0


From b5b69f82d270f3385d59528616f4091ab312f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:58 +0000
Subject: [PATCH 091/113] fix: level-wise neighbors of intervals lie next to
 the interval, in other parents and across periodic boundaries too

---
 src/mesh.py | 112 ++++++++++++++++++++++++----------------------------
 1 file changed, 52 insertions(+), 60 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index ad59126..f58a415 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2800,74 +2800,66 @@ class Interval(HalfEdge):
                 #
                 # Left neighbor
                 #
-                nbr = self.previous()
-                if nbr is None:
-                    #
-                    # No previous, may still be periodic
-                    #
-                    v = self.base()
-                    if v.is_periodic():
+                itv = self
+                nbr = itv.previous()
+                #
+                # Go up the tree until there is a "previous"
+                #
+                while nbr is None:
+                    if itv.has_parent():
+                        itv = itv.get_parent()
+                        nbr = itv.previous()
+                    elif itv.base().is_periodic():
                         #
-                        # Get coarsest cell periodically associated with v
+                        # Get coarsest cell periodically associated with vertex
                         #
-                        for pair in v.get_periodic_pair():
-                            nbr, dummy = pair
-                            while nbr.get_depth()<self.get_depth():
-                                #
-                                # Search children until depth matches
-                                #
-                                if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(0)
-                                else:
-                                    #
-                                    # There are no children at same depth as interval
-                                    #
-                                    return None
-                                #
-                                # Found nbr at correct depth
-                                #
-                            return nbr
-                else:
-                    #
-                    # Return previous interval
-                    #
-                    return nbr
+                        for nbr, dummy in itv.base().get_periodic_pair():
+                            pass
+                    else:
+                        return None
+                #
+                # Search children until depth matches
+                #
+                while nbr.get_depth()<self.get_depth():
+                    if not nbr.has_children(flag=subforest_flag):
+                        #
+                        # There are no children at same depth as interval
+                        #
+                        return None
+                    nbr = nbr.get_child(nbr.n_children()-1)
+                return nbr
             elif pivot == 1:
                 #
                 # Right neighbor
                 #
-                nbr = self.next()
-                if nbr is None:
-                    #
-                    # No next, may still be periodic
-                    #
-                    v = self.head()
-                    if v.is_periodic():
+                itv = self
+                nbr = itv.next()
+                #
+                # Go up the tree until there is a "next"
+                #
+                while nbr is None:
+                    if itv.has_parent():
+                        itv = itv.get_parent()
+                        nbr = itv.next()
+                    elif itv.head().is_periodic():
                         #
-                        # Get coarsest cell periodically associated with v
+                        # Get coarsest cell periodically associated with vertex
                         #
-                        for pair in v.get_periodic_pair():
-                            nbr, dummy = pair
-                            while nbr.get_depth()<self.get_depth():
-                                #
-                                # Iterate through children until depth matches
-                                #
-                                if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(1)
-                                else:
-                                    #
-                                    # There are no cells matching cell's depth
-                                    #
-                                    return None
-                                #
-                                # Found nbr at correct depth
-                                #
-                            return nbr
-                else:
-                    #
-                    # Return next interval
-                    #
-                    return nbr
+                        for nbr, dummy in itv.head().get_periodic_pair():
+                            pass
+                    else:
+                        return None
+                #
+                # Search children until depth matches
+                #
+                while nbr.get_depth()<self.get_depth():
+                    if not nbr.has_children(flag=subforest_flag):
+                        #
+                        # There are no children at same depth as interval
+                        #
+                        return None
+                    nbr = nbr.get_child(0)
+                return nbr
 
         elif mode=='physical':
             # =================================================================
-- 
2.43.0


From 589ba1841b0f0a061454fd37e2347f24592597bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:58 +0000
Subject: [PATCH 092/113] fix: vertex neighbors on meshes with one or two cells
 in a periodic direction

---
 src/mesh.py | 45 ++++++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index f58a415..24edde7 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3489,67 +3489,54 @@ class Cell(Tree):
             #
             # Anti-clockwise
             #
-            own_pivot = pivot
             neighbors = []
-            cell = self
+            first = self.incident_half_edge(pivot)
+            half_edge = first
             while True:
                 #
                 # Get neighbor
                 #
-                half_edge = cell.incident_half_edge(pivot)
-                neighbor = cell.get_neighbors(half_edge)
+                neighbor = self.get_neighbors(half_edge)
                 #
                 # Move on
                 #
                 if neighbor is None:
                     break
-                elif neighbor==self:
+                if neighbor!=self and neighbor not in neighbors:
                     #
-                    # Full rotation or no neighbors
+                    # Got a neighbor
+                    #
+                    neighbors.append(neighbor)
+                half_edge = half_edge.twin().previous()
+                if half_edge==first:
+                    #
+                    # Full rotation
                     #
                     if flag is not None:
                         return [nb for nb in neighbors if nb.is_marked(flag)]
                     return neighbors
-                else:
-                    #
-                    # Got at neighbor!
-                    #
-                    neighbors.append(neighbor)
-                    cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
             #
             # Clockwise
             #
             neighbors_clockwise = []
-            cell = self
-            pivot = own_pivot
+            first = self.incident_half_edge(pivot, reverse=True)
+            half_edge = first
             while True:
                 #
                 # Get neighbor
                 #
-                half_edge = cell.incident_half_edge(pivot, reverse=True)
-                neighbor = cell.get_neighbors(half_edge)
+                neighbor = self.get_neighbors(half_edge)
                 #
                 # Move on
                 #
                 if neighbor is None:
                     break
-                elif neighbor==self:
-                    #
-                    # Full rotation or no neighbors
-                    #
-                    if flag is not None:
-                        return [nb for nb in neighbors if nb.is_marked(flag)]
-                    return neighbors
-                else:
+                if neighbor!=self and neighbor not in neighbors_clockwise:
                     #
                     # Got a neighbor
                     #
                     neighbors_clockwise.append(neighbor)
-                    cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
+                half_edge = half_edge.twin().next()
             #
             # Combine clockwise and anticlockwise neighbors
             #
-- 
2.43.0


From 24519ebf0e67277a4f5c0db25ef24384b11c2463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:58 +0000
Subject: [PATCH 093/113] fix: numbering of refined periodic meshes with a
 single cell in a periodic direction

---
 src/fem.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 4defc66..2eb525b 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1436,7 +1436,7 @@ class DofHandler(object):
             own_neighbor = False
             if dim==1:
                 for vertex in cell.get_vertices():
-                    nb = cell.get_neighbor(vertex)
+                    nb = cell.get_neighbor(vertex, mode='level-wise')
                     if nb == cell:
                         own_neighbor = True
                         break
@@ -1487,6 +1487,10 @@ class DofHandler(object):
                     # Assign new dofs to interval
                     self.assign_dofs(dofs, cell, cell)
 
+                    # Throw out used dofs
+                    cell_dofs = self.get_cell_dofs(cell, cell, interior=True)
+                    dofs = [dof for dof in dofs if dof not in cell_dofs]
+
             elif dim==2:
                 #
                 # Assign dofs to HalfEdges
@@ -1527,9 +1531,7 @@ class DofHandler(object):
 
                     # Throw out used dofs
                     cell_dofs = self.get_cell_dofs(cell, cell, interior=True)
-                    for dof in dofs:
-                        if dof in cell_dofs:
-                            dofs.pop(dofs.index(dof))
+                    dofs = [dof for dof in dofs if dof not in cell_dofs]
 
             # Subtract unused dofs from total dof count
             count -= len(dofs)
-- 
2.43.0


From 3142e224263a2b5c9f1a72eed0ffcebcff826894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:33 +0000
Subject: [PATCH 094/113] fix: nodal functions evaluate in cells that carry a
 dof twice (one cell in a periodic direction)

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index d12befc..6acf08f 100644
--- a/src/function.py
+++ b/src/function.py
@@ -2076,7 +2076,7 @@ class Nodal(Map):
                 Phi.append(np.zeros((n_points, n_basis)))
                 for phi, i_pt, dof in zip(phis[i], pidx[i], dofs[i]):
                     i_col = [udofs[i].index(d) for d in dof]
-                    Phi[i][np.ix_(i_pt, i_col)] = phi
+                    np.add.at(Phi[i], np.ix_(i_pt, i_col), phi)
             
                 assert Phi[i].shape[1]==n_basis
             #
-- 
2.43.0


From f1146580bf2858c85f14b7692f47310861710a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:43 +0000
Subject: [PATCH 095/113] fix: index maps of a basis moved to another submesh

---
 src/fem.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 2eb525b..d9a8534 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -921,15 +921,8 @@ class Basis():
         'Input "dofhandler" should be of type "DofHandler".'
 
         self.__dofhandler = dofhandler
-        self.__subforest_flag = subforest_flag
         self.__derivative = parse_derivative_info(derivative)
-
-        dofs = self.dofs()
-        d2i = -np.ones(dofs[-1]+1, dtype=int)
-        d2i[dofs] = np.arange(len(dofs))
-
-        self.__i2d = np.array(dofs)
-        self.__d2i = d2i
+        self.set_subforest_flag(subforest_flag)
 
     '''
     def __eq__(self, other):
@@ -981,6 +974,14 @@ class Basis():
         """
         self.__subforest_flag = flag
 
+        # Mappings between the submesh's dofs and their indices
+        dofs = self.dofs()
+        d2i = -np.ones(dofs[-1]+1, dtype=int)
+        d2i[dofs] = np.arange(len(dofs))
+
+        self.__i2d = np.array(dofs)
+        self.__d2i = d2i
+
 
     def derivative(self):
         """
-- 
2.43.0


From 9a5e2930cce0d407d7803c2e1ac6a03b05420f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:59 +0000
Subject: [PATCH 096/113] fix: inverse of the cell map in distorted
 quadrilaterals

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 24edde7..0fe485d 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3983,7 +3983,7 @@ class QuadCell(Cell, Tree):
                 #
                 # Initialize points in reference domain
                 s, t = 0.5*np.ones(n), 0.5*np.ones(n)
-                n_iterations = 5
+                n_iterations = 12
                 for dummy in range(n_iterations):
                     #
                     # Compute residual
-- 
2.43.0


From d5a2bde63d1d2b93b48660a4c91417ffb1cabc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 097/113] fix: wire plots

---
 src/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plot.py b/src/plot.py
index a4fe630..2bdb24f 100644
--- a/src/plot.py
+++ b/src/plot.py
@@ -836,7 +836,7 @@ class Plot(object):
         # 
         if self.__quickview:
             fig = plt.figure()
-            axis = fig.gca(projection="3d")
+            axis = fig.add_subplot(111, projection="3d")
         else:
             assert axis is not None, 'Axis not specified.'
             assert axis.name=="3d", 'Axis required to be 3D.'
@@ -868,7 +868,7 @@ class Plot(object):
                 xy  = np.array([xx,yy]).T
                 # TODO: How do we incorporate cell information into the function? 
                 #zz = f.eval(xy, cell=cell)
-                zz = f.eval(xy)
+                zz = f.eval(xy)[:,n_sample]
                 x.extend(list(xx))
                 y.extend(list(yy))
                 z.extend(list(zz))
@@ -876,7 +876,7 @@ class Plot(object):
             verts = [list(zip(x,y,z))]
             poly = Poly3DCollection(verts, edgecolor="black", linewidth=0.5,
                                     facecolor="white")
-            axis.add_collection3d(poly, zs='z')
+            axis.add_collection3d(poly)
             
             # 
             # Update minimum function value
-- 
2.43.0


From f8c5900a19fa04cc2d2ee400bfc2914772aa212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 098/113] fix: contour plots of constant functions

---
 src/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plot.py b/src/plot.py
index 2bdb24f..17fe8ac 100644
--- a/src/plot.py
+++ b/src/plot.py
@@ -643,7 +643,7 @@ class Plot(object):
         nx, ny = resolution 
         x,y = np.meshgrid(np.linspace(x0,x1,nx),np.linspace(y0,y1,ny))
         xy = np.array([x.ravel(), y.ravel()]).T
-        if isinstance(f, Explicit):
+        if isinstance(f, (Explicit, Constant)):
             ff = f.eval(xy)
         else:
             ff = f.eval(xy, derivative=derivative)
-- 
2.43.0


From f6c9d8f9324aa6f0fb5497429cae4b3d4b216d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 099/113] fix: line plots of explicit and constant functions,
 and of several samples of discontinuous ones

---
 src/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plot.py b/src/plot.py
index 17fe8ac..93c9c42 100644
--- a/src/plot.py
+++ b/src/plot.py
@@ -966,7 +966,10 @@ class Plot(object):
             #
             # Evaluate function on local interval
             # 
-            ff = f.eval(x=xx, cell=interval)
+            if isinstance(f, Nodal):
+                ff = f.eval(x=xx, cell=interval)
+            else:
+                ff = f.eval(x=xx)
             #
             # Add x and y-values to list
             #  
@@ -981,7 +984,7 @@ class Plot(object):
             if isinstance(f, Nodal):
                 if f.basis().dofhandler().element.torn_element():
                     x.append(x1)
-                    fx.append(np.nan)
+                    fx.append(np.full(np.shape(i_sample), np.nan).tolist())
         
         #
         # Plot graph
-- 
2.43.0


From fece5bb4838321e2560113a4d1b2e42bcba0748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:02 +0000
Subject: [PATCH 100/113] fix: wire plots of discontinuous functions show each
 cell's own values

---
 src/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/plot.py b/src/plot.py
index 93c9c42..d43b097 100644
--- a/src/plot.py
+++ b/src/plot.py
@@ -866,9 +866,10 @@ class Plot(object):
                 xx = x0 + t*(x1-x0)
                 yy = y0 + t*(y1-y0)
                 xy  = np.array([xx,yy]).T
-                # TODO: How do we incorporate cell information into the function? 
-                #zz = f.eval(xy, cell=cell)
-                zz = f.eval(xy)[:,n_sample]
+                if isinstance(f, Nodal):
+                    zz = f.eval(xy, cell=cell)[:,n_sample]
+                else:
+                    zz = f.eval(xy)[:,n_sample]
                 x.extend(list(xx))
                 y.extend(list(yy))
                 z.extend(list(zz))
-- 
2.43.0


From eb6af5d519e019f713d62021fcc6d4d74f89332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:02 +0000
Subject: [PATCH 101/113] fix: surface plots

---
 src/plot.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/plot.py b/src/plot.py
index d43b097..0f1aac8 100644
--- a/src/plot.py
+++ b/src/plot.py
@@ -708,8 +708,8 @@ class Plot(object):
         assert isinstance(f, Map), 'Can only plot Map objects.'
         
         if mesh is None:
-            if f.mesh is not None:
-                mesh = f.mesh
+            if isinstance(f, Nodal):
+                mesh = f.mesh()
             else:
                 mesh_error = 'Mesh must be specified, either explicitly, '+\
                     'or as part of the Function.'
@@ -728,7 +728,10 @@ class Plot(object):
             xy = np.array([xx.ravel(),yy.ravel()]).transpose()
         
             # Evaluate function
-            zz = f.eval(xy, derivative=derivative)
+            if isinstance(f, (Explicit, Constant)):
+                zz = f.eval(xy)
+            else:
+                zz = f.eval(xy, derivative=derivative)
             z_min, z_max = zz.min(), zz.max()
             
             if grid:
@@ -801,7 +804,7 @@ class Plot(object):
                 node_count += 1   
             axis.add_collection(Line3DCollection(lines, colors='k', linewidth=0.5))
         
-        x0,x1,y0,y1 = mesh.box()
+        x0,x1,y0,y1 = mesh.bounding_box()
         hx = x1 - x0
         hy = y1 - y0
         hz = z_max - z_min
-- 
2.43.0


From 151e790105a70dc5b1335c1acce1c26787597eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:37 +0000
Subject: [PATCH 102/113] fix: numbering dofs again after refining the mesh
 takes over the dofs of neighbors numbered before

---
 src/fem.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fem.py b/src/fem.py
index d9a8534..384e548 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1253,6 +1253,15 @@ class DofHandler(object):
                 distribute dofs
         """
         dim = self.element.dim()
+        if self.__global_dofs and not self.element.torn_element():
+            #
+            # Cells numbered earlier share their dofs with neighbors that did
+            # not exist at the time (the mesh may have been refined since)
+            #
+            for cell in self.mesh.cells.traverse(mode='breadth-first'):
+                cell_dofs = self.get_cell_dofs(cell)
+                if cell_dofs is not None and None not in cell_dofs:
+                    self.share_dofs_with_neighbors(cell)
         if dim==1:
             for interval in self.mesh.cells.traverse(mode='breadth-first',
                                                      flag=subforest_flag):
-- 
2.43.0


From 2769d4c4ee880b751a45c1b1d134fc87e0b5db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 103/113] fix: numbering dofs again discards the hanging nodes
 found before

---
 src/fem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fem.py b/src/fem.py
index 384e548..c8b8402 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1252,6 +1252,11 @@ class DofHandler(object):
             subforest_flag: str/int, identifies the submesh on which to
                 distribute dofs
         """
+        #
+        # Hanging nodes determined earlier may be outdated
+        #
+        self.__hanging_nodes = {}
+
         dim = self.element.dim()
         if self.__global_dofs and not self.element.torn_element():
             #
-- 
2.43.0


From d866992310a55f799deb5341574bf9ff84a9a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:00 +0000
Subject: [PATCH 104/113] fix: points of nearly axis-aligned half-edges were
 not found on them

The location parameters along both axes were compared, which loses all
accuracy along the short one.
---
 src/mesh.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 0fe485d..7d5fe30 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2424,11 +2424,13 @@ class HalfEdge(Tree):
             #
             # Skew line
             #
-            s = (p[:,0]-x0[:,0])/v[0]
-            t = (p[:,1]-x0[:,1])/v[1]
+            # Locate the longer coordinate along the line
+            i = np.argmax(np.abs(v))
+            t = (p[:,i]-x0[:,i])/v[i]
 
-            # Check coordinates have same location parameters
-            in_half_edge[np.abs(t-s)>tol] = False
+            # Check distance from the line
+            d = (p[:,0]-x0[:,0])*v[1] - (p[:,1]-x0[:,1])*v[0]
+            in_half_edge[np.abs(d)>tol*np.linalg.norm(v)] = False
 
             # Check that location parameter lies in [0,1]
             in_half_edge[np.abs(t-0.5)>0.5] = False
-- 
2.43.0


From 5ef3b9f9de5852ac1a8efc7f88a3db06d38996a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:06 +0000
Subject: [PATCH 105/113] fix: names of gmsh regions may contain blanks

---
 src/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 7d5fe30..f8d75e6 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -5768,8 +5768,8 @@ class DCEL(object):
                         #
                         # Record names, dimensions, and tags of subregions
                         #
-                        words = line.split()
-                        name = words[2].replace('"','')
+                        words = line.split(maxsplit=2)
+                        name = words[2].strip().replace('"','')
                         subregions['names'].append(name)
                         subregions['dim'].append(int(words[0]))
                         subregions['tags'].append(int(words[1]))
-- 
2.43.0


From 36d981eee2f185326a3b42f52692aee59fce49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:08 +0000
Subject: [PATCH 106/113] fix: samples could not be added to nodal functions of
 two variables

---
 src/function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/function.py b/src/function.py
index 6acf08f..80fbd33 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1772,11 +1772,11 @@ class Nodal(Map):
             assert n_dofs==self.basis().dofhandler().n_dofs(subforest_flag=sf),\
                 'Data size is not consistent'
             
-            # Convert 1D data array to to 2D
-            if len(data.shape)==1:
-                data = data[:,None]
+            # Single sample: add the axis of the samples
+            if len(data.shape)==self.n_variables():
+                data = data[...,None]
             
-            new_data = np.append(self.data(),data,axis=1)
+            new_data = np.append(self.data(),data,axis=-1)
             self.set_data(new_data)
             
     
-- 
2.43.0


From 8035e6708a074d875bf172e397211931704c1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:08 +0000
Subject: [PATCH 107/113] fix: rules added to an explicit function were added
 to the list it was made from

---
 src/function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/function.py b/src/function.py
index 80fbd33..2724d70 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1507,8 +1507,9 @@ class Explicit(Map):
             # 
             # Store functions
             #
-            self.__f = f
-            self.__parameters = parameters
+            # (copies, so that the lists passed by the user are not modified)
+            self.__f = list(f)
+            self.__parameters = list(parameters)
                             
             
     def add_rule(self, f, parameters={}):
-- 
2.43.0


From 298c22e00082198fa216e95cdf41ac01b3340c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:08 +0000
Subject: [PATCH 108/113] fix: assemblers changed, and changed with, the lists
 of forms they were given

---
 src/assembler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 8920e1c..4ecdcd1 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2085,21 +2085,28 @@ class Assembler(object):
                 #
                 # Single problem consisting of multiple forms
                 #
-                problems = [problems]
+                problems = [list(problems)]
             else:
                 #
                 # Multiple problems
                 #
+                # (in lists of our own: the given ones may be changed later)
+                #
+                parsed = []
                 for problem in problems:
                     if type(problem) is not list:
                         #
                         # Found problem not in list form
                         #
                         assert isinstance(problem, Form), problem_error
+                        
                         #
                         # Convert form to problem
                         #
-                        problems[problems.index(problem)] = [problem]
+                        parsed.append([problem])
+                    else:
+                        parsed.append(list(problem))
+                problems = parsed
         else:
             #
             # Single form
-- 
2.43.0


From 8b36be4957d7e3de37a2abc17359649ff601afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:08 +0000
Subject: [PATCH 109/113] fix: kernels changed with the lists of functions and
 derivatives they were made from

---
 src/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 4ecdcd1..2cf9378 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -791,7 +791,7 @@ class Kernel(object):
             #
             assert isinstance(f, Map), 'Input "f" should be a "Map" object.'
             f = [f]
-        self.__f = f
+        self.__f = list(f)
         n_functions = len(self.__f)
 
         #
@@ -810,7 +810,7 @@ class Kernel(object):
             assert len(derivatives)==n_functions, \
             'The size of input "derivatives" incompatible with '+\
             'that of input "f".'
-            dfdx = derivatives
+            dfdx = list(derivatives)
         else:
             #
             # Single derivative applies to all functions
-- 
2.43.0


From 911fe0fa699032a4b0f0ef6459b3e85789cbb0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:11 +0000
Subject: [PATCH 110/113] fix: canonical mean of a Gaussian field restricted to
 its support

---
 src/gmrf.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 0a50114..255cd04 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -827,12 +827,17 @@ class GaussianField(object):
         Compute the mean of the Gaussian field from the canonical mean
         """
         b = self.get_canonical_mean()
+        V = self.support()
+        if V is not None:
+            # The matrices are those of the restriction to the support
+            b = V.T.dot(b)
         Q = self.get_precision()
         if Q is not None:
-            self.__mean = Q.solve(b)
+            mean = Q.solve(b)
         else:
             K = self.get_covariance()
-            self.__mean = K.dot(b)
+            mean = K.dot(b)
+        self.__mean = mean if V is None else V.dot(mean)
 
 
     def set_canonical_mean(self, canonical_mean):
@@ -855,13 +860,18 @@ class GaussianField(object):
         """
         Compute the canonical mean b = Q*mu
         """
+        mean = self.mean()
+        V = self.support()
+        if V is not None:
+            # The matrices are those of the restriction to the support
+            mean = V.T.dot(mean)
         Q = self.precision()
         if Q is not None: 
-            b = Q.dot(self.mean())
+            b = Q.dot(mean)
         else:
             K = self.covariance()
-            b = K.sqrt_solve(K.sqrt_solve(self.mean()), transpose=True)
-        self.__canonical_mean = b
+            b = K.sqrt_solve(K.sqrt_solve(mean), transpose=True)
+        self.__canonical_mean = b if V is None else V.dot(b)
 
 
     def set_covariance(self, covariance, decomposition='eig'):
-- 
2.43.0


From 4e840626ed0bd875b37a20b8a5e5d9f5e18c453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:11 +0000
Subject: [PATCH 111/113] fix: canonical mean of a Gaussian field was that of
 an earlier mean

---
 src/gmrf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gmrf.py b/src/gmrf.py
index 255cd04..db2c268 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -813,6 +813,8 @@ class GaussianField(object):
             self.__mean = mean
         else:
             self.__mean = np.zeros((self.get_size(),1))
+        # The canonical mean of an earlier mean is no longer valid
+        self.set_canonical_mean(None)
 
 
     def get_mean(self):
-- 
2.43.0


From 39aad4e304e4d7d8400320544e2e4b2e0057e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:23 +0000
Subject: [PATCH 112/113] fix: problems whose dofs are all prescribed could not
 be assembled and solved

---
 src/assembler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 2cf9378..38f5de0 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3811,7 +3811,8 @@ class Assembler(object):
         # Solve linear system on interior dofs
         #
         int_dofs = self.get_dofs('interior', i_problem=i_problem)
-        u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0).reshape(b.shape)
+        if len(int_dofs)>0:
+            u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0).reshape(b.shape)
 
         #
         # Resolve Dirichlet conditions
@@ -4441,16 +4442,17 @@ class AssembledForm(object):
             #
             # Dof-to-index mapping for interior dofs
             #
-            dof2idx.append(np.zeros(udofs[i][-1]+1, dtype=int))
+            n_max = udofs[i][-1]+1 if n_idx[i]>0 else 0
+            dof2idx.append(np.zeros(n_max, dtype=int))
             dof2idx[i][udofs[i]] = np.arange(n_idx[i])
 
         #
         # Store values in (n, n_samples) array
         #
         vals = self.__aggregate_data['vals']
-        vals = np.array(vals)
-
         n_samples = self.n_samples()
+        vals = np.array(vals) if len(vals)>0 else np.zeros((0,n_samples))
+
         if dim == 0:
             #
             # Constant (scalar)
-- 
2.43.0


From 262e2b43c007c3894250fbf8044d2d1301f7e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:14 +0000
Subject: [PATCH 113/113] fix: balancing a submesh depended on the order in
 which its cells are visited

---
 src/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index f8d75e6..7d4467b 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7925,7 +7925,9 @@ class QuadMesh(Mesh2D):
                                     if hep is not None:
                                         hep_twin = hep.twin()
                                         if hep_twin is not None:
-                                            leaves.add(hep_twin.cell())
+                                            # The neighbor may be finer than the submesh
+                                            nb = hep_twin.cell()
+                                            leaves.add(nb.nearest_ancestor(subforest_flag))
                             #
                             # Current LEAF cell has been split, move on to next one
                             #
-- 
2.43.0

