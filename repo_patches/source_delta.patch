From a7416b177797a68ff160ade49d63f4e4eb5260bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 01/29] fix: clip edges with a sweep line that lies below the
 whole bounding polygon

min_y - |max_y| is (almost) min_y itself when the polygon touches y=0 from
below, so half-infinite edges were cut off before they left the polygon.
---
 foronoi/graph/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 0d95161..ef01fa9 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -149,7 +149,7 @@ class Polygon(Subject):
 
     def _finish_edge(self, edge):
         # Sweep line position
-        sweep_line = self.min_y - abs(self.max_y)
+        sweep_line = self.min_y - (self.max_x - self.min_x) - (self.max_y - self.min_y)
 
         # Start should be a breakpoint
         start = edge.get_origin(y=sweep_line, max_y=self.max_y)
-- 
2.43.0


From d3b4f8ed0877d0e3a83fc3ca264bd0df2f498e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 02/29] fix: edges between equally high top sites must cross
 the polygon's upper border

The upward end was put exactly on max_y (or at infinity when max_y is 0), so
rounding could lose the intersection with the border.
---
 foronoi/graph/polygon.py    | 7 +++++--
 foronoi/nodes/breakpoint.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index ef01fa9..e25ff53 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -151,11 +151,14 @@ class Polygon(Subject):
         # Sweep line position
         sweep_line = self.min_y - (self.max_x - self.min_x) - (self.max_y - self.min_y)
 
+        # Edges that go up infinitely must end strictly above the polygon
+        max_y = self.max_y + (self.max_y - self.min_y)
+
         # Start should be a breakpoint
-        start = edge.get_origin(y=sweep_line, max_y=self.max_y)
+        start = edge.get_origin(y=sweep_line, max_y=max_y)
 
         # End should be a vertex
-        end = edge.twin.get_origin(y=sweep_line, max_y=self.max_y)
+        end = edge.twin.get_origin(y=sweep_line, max_y=max_y)
 
         # Get point of intersection
         point = self._get_intersection_point(end, start)
diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index c3275ad..590562c 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -86,7 +86,7 @@ class Breakpoint:
             result.xd = (i.xd + j.xd) / 2
 
             if j.xd < i.xd:
-                result.yd = max_y or float('inf')
+                result.yd = max_y if max_y is not None else float('inf')
                 return result
 
         # Handle cases where one point's y-coordinate is the same as the sweep line
-- 
2.43.0


From 25d6da08bd5f212fcf56391f3869bd0c8bc258ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 03/29] fix: move all connected edges when two vertices are
 merged

The list was modified while iterating over it, so every second half-edge kept
an origin that is not a vertex of the diagram.
---
 foronoi/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6c25b95..6b412a6 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -555,7 +555,7 @@ class Algorithm(Subject):
                 v2: Vertex = edge.twin.origin
 
                 # Move connected edges from v1 to v2
-                for connected in v1.connected_edges:
+                for connected in list(v1.connected_edges):
                     connected.origin = v2
                     v1.connected_edges.remove(connected)
                     v2.connected_edges.append(connected)
-- 
2.43.0


From 0f0e80199c3973a1986eb505c8b86a942df10a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 04/29] fix: merge coinciding vertices that differ only by
 Decimal rounding

---
 foronoi/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6b412a6..e96a0f7 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -548,7 +548,7 @@ class Algorithm(Subject):
         for edge in self.edges:
             start = edge.get_origin()
             end = edge.twin.get_origin()
-            if start.xd == end.xd and start.yd == end.yd:
+            if start.xy == end.xy:
 
                 # Combine the vertices
                 v1: Vertex = edge.origin
-- 
2.43.0


From d8b9d9febdc7e37ca22fcee5d5f6b377f72ca1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 05/29] fix: take the first border's cell from the diagram
 instead of guessing the nearest site

The nearest site of the first corner is ambiguous when an edge ends there.
---
 foronoi/graph/polygon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index e25ff53..e8e1423 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -71,6 +71,12 @@ class Polygon(Subject):
         vertices = self._get_ordered_vertices(self.polygon_vertices)
         vertices = list(vertices) + [vertices[0]]  # <- The extra vertex added here, should be removed later
         cell = self._get_closest_point(vertices[0], points)
+
+        # The first vertices belong to the same cell as the last part of the border
+        for vertex in vertices:
+            if len(vertex.connected_edges) > 0:
+                cell = vertex.connected_edges[0].twin.incident_point
+
         previous_edge = None
         for index in range(0, len(vertices) - 1):
 
-- 
2.43.0


From 7fac1ebf0a0f803786d0d58b329f3964673fe49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 06/29] fix: order border vertices around a point strictly
 inside the polygon

The center of the axis-aligned box lies on the border of e.g. right triangles,
so sorting by angle mixed up the vertices on that side.
---
 foronoi/graph/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index e8e1423..295377d 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -24,7 +24,8 @@ class Polygon(Subject):
         min_x = min([p.xd for p in self.points])
         max_y = max([p.yd for p in self.points])
         max_x = max([p.xd for p in self.points])
-        center = Coordinate((max_x + min_x) / 2, (max_y + min_y) / 2)
+        center = Coordinate(sum(p.xd for p in self.points) / len(self.points),
+                            sum(p.yd for p in self.points) / len(self.points))
         self.min_y, self.min_x, self.max_y, self.max_x, self.center = min_y, min_x, max_y, max_x, center
 
         self.points = self._order_points(self.points)
-- 
2.43.0


From a361ced6cda763091bcbc7dbc75f8d86471752ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 07/29] fix: do not crash when rounding makes a breakpoint's
 discriminant negative

---
 foronoi/nodes/breakpoint.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index 590562c..0477afe 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -99,9 +99,10 @@ class Breakpoint:
             # We now need to solve for x
             # 1/u * (x**2 - 2*a*x + a**2 + b**2 - l**2) = 1/v * (x**2 - 2*c*x + c**2 + d**2 - l**2)
             # Then we let Wolfram alpha do the heavy work for us, and we put it here in the code :D
-            x = -(Decimal.sqrt(
+            # (rounding can make the discriminant slightly negative)
+            x = -(Decimal.sqrt(max(Decimal(0),
                 v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (v - u) + l ** 2 * (
-                    u - v) ** 2) + a * v - c * u) / (u - v)
+                    u - v) ** 2)) + a * v - c * u) / (u - v)
             result.xd = x
 
         # We have to re-evaluate this, since the point might have been changed
-- 
2.43.0


From 1fdf7c3f4fd56657270409384f2854ec1a29225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:31 +0000
Subject: [PATCH 08/29] fix: a bounding polygon can be used for more than one
 diagram

The clipping vertices of the previous diagram were kept and linked into the
border of the next one.
---
 foronoi/graph/polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 295377d..d9fed61 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -136,6 +136,9 @@ class Polygon(Subject):
         clipped_edges: list(HalfEdge)
             A list of clipped edges
         """
+        # Forget the vertices of a previous diagram
+        self.polygon_vertices = [Vertex(point.xd, point.yd) for point in self.points]
+
         resulting_edges = list()
         for edge in edges:
 
-- 
2.43.0


From 09b0afebbb4421f2f0788f7c5444e5fbd5c2bf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:56 +0000
Subject: [PATCH 09/29] fix: create_diagram can be called more than once on the
 same object

The beach line, edges and vertices of the previous diagram were still there,
which led to endless loops.
---
 foronoi/algorithm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index e96a0f7..d8c0ebf 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -108,6 +108,16 @@ class Algorithm(Subject):
             Event queue for upcoming site and circle events
         """
 
+        # Forget the previous diagram
+        self.event_queue = PriorityQueue()
+        self.event = None
+        self.status_tree = None
+        self.doubly_connected_edge_list = []
+        self.sweep_line = float("inf")
+        self._arcs = set()
+        self.edges = list()
+        self._vertices = set()
+
         # Store the points for visualization
         self.sites = points
 
-- 
2.43.0


From 87714b93c1a606bccd8bf51dd5dfc6349b4dc88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:58 +0000
Subject: [PATCH 10/29] fix: settings of one VoronoiObserver must not leak into
 the presets

settings.update() changed the module-wide preset dictionaries.
---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index bedbbc4..cb62250 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -82,20 +82,20 @@ class VoronoiObserver(Observer, ABC):
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.construction
+            settings = dict(Presets.construction)
             settings.update(self.settings)
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.clipping
+            settings = dict(Presets.clipping)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.final
+            settings = dict(Presets.final)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Voronoi completed\n")
-- 
2.43.0


From 63a4dbf5385c99ae255cc87ee3ac2aaee0858792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:00 +0000
Subject: [PATCH 11/29] fix: plot_all passed the triangles-flag as the event to
 plot

With triangles=True no circle was drawn at all, and the flag had no effect.
---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index b8f0535..6e22afb 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -185,7 +185,7 @@ class Visualizer:
         self.plot_vertices() if vertices else False
         self.plot_sites(show_labels=site_labels) if sites else False
         self.plot_outgoing_edges(scale=scale) if outgoing_edges else False
-        self.plot_event(triangles) if events else False
+        self.plot_event(triangles=triangles) if events else False
         self.plot_arcs(plot_arcs=arcs, show_labels=arc_labels) if beach_line else False
         self._set_limits()
         return self
-- 
2.43.0


From 024c4234976e59583f35c8e3bcb70610b241fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:03 +0000
Subject: [PATCH 12/29] fix: Tree.delete failed for nodes with two children

Nodes have no attribute 'value'.
---
 foronoi/tree/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 07a9a60..53de270 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -149,11 +149,11 @@ class Tree:
         if root is None:
             return root
 
-        elif key < root.get_key():
-            root.left = Tree.delete(root.left, key)
+        elif key < root.get_key(**kwargs):
+            root.left = Tree.delete(root.left, key, **kwargs)
 
-        elif key > root.get_key():
-            root.right = Tree.delete(root.right, key)
+        elif key > root.get_key(**kwargs):
+            root.right = Tree.delete(root.right, key, **kwargs)
 
         else:
             if root.left is None:
@@ -164,7 +164,7 @@ class Tree:
 
             temp = root.right.minimum()
             root.data = temp.data
-            root.right = Tree.delete(root.right, temp.value.get_key(**kwargs))
+            root.right = Tree.delete(root.right, temp.get_key(**kwargs), **kwargs)
 
         # If the tree has only one node, simply return it
         if root is None:
-- 
2.43.0


From 9dd9e9c83348dbc2289196eb8529a55947345d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 13/29] fix: an observer that detaches itself must not hide the
 message from the next one

---
 foronoi/observers/subject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 021ba7d..27df9bd 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -46,7 +46,7 @@ class Subject:
         message: Message
             The message type
         """
-        for observer in self._observers:
+        for observer in list(self._observers):
             observer.update(self._root_sender, message, **kwargs)
         return self
 
-- 
2.43.0


From f9e60054bbf1d0b348c62e2b8f5f1f9235ffb2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:42 +0000
Subject: [PATCH 14/29] fix: Tree.delete left the new root with the deleted
 node as its parent

---
 foronoi/tree/tree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 53de270..4a4a699 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -156,11 +156,14 @@ class Tree:
             root.right = Tree.delete(root.right, key, **kwargs)
 
         else:
-            if root.left is None:
-                return root.right
+            if root.left is None or root.right is None:
+                child = root.right if root.left is None else root.left
 
-            elif root.right is None:
-                return root.left
+                # The child takes the place of the deleted node
+                if child is not None:
+                    child.parent = root.parent
+
+                return child
 
             temp = root.right.minimum()
             root.data = temp.data
-- 
2.43.0


From 11ba82e90291b3dabfd8afbda3543dcc60420c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:44 +0000
Subject: [PATCH 15/29] fix: observers of a shared bounding polygon belong to
 the diagram being created

A subject now inherits the observers that its parent already has, and follows
only its latest parent, so that observers of one diagram no longer receive the
messages of another.
---
 foronoi/algorithm.py               | 3 +++
 foronoi/contrib/bounding_circle.py | 2 ++
 foronoi/observers/subject.py       | 5 +++++
 3 files changed, 10 insertions(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index d8c0ebf..20f2c7d 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -217,6 +217,9 @@ class Algorithm(Subject):
         self.notify_observers(Message.DEBUG, payload="# Sweep finished")
         self.notify_observers(Message.SWEEP_FINISHED)
 
+        # The bounding polygon may have been used for another diagram in the meantime
+        self.bounding_poly.inherit_observers_from(self)
+
         # Finish with the bounding box
         self.edges = self.bounding_poly.finish_edges(
             edges=self.edges, vertices=self._vertices, points=self.sites, event_queue=self.event_queue
diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index c04fd74..cd25764 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -4,6 +4,7 @@ from decimal import Decimal
 from foronoi import Polygon
 from foronoi.algorithm import Algorithm
 from foronoi.graph import Point, Coordinate, Vertex
+from foronoi.observers.subject import Subject
 
 DEBUG = False
 
@@ -14,6 +15,7 @@ if DEBUG:
 class BoundingCircle(Polygon):
 
     def __init__(self, x, y, radius):
+        Subject.__init__(self)
         self.xd = Decimal(str(x))
         self.yd = Decimal(str(y))
         self.radius = Decimal(str(radius))
diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 27df9bd..a71caf8 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -66,6 +66,10 @@ class Subject:
         parent: Subject
             The parent to inherit observers from
         """
+        # A subject has only one parent
+        if self._root_sender is not self:
+            self._root_sender._children.remove(self)
+
         parent._add_child(self)
         self._root_sender = parent
         self._child_sender = self
@@ -75,6 +79,7 @@ class Subject:
         Add child
         """
         self._children.append(child)
+        self._update_children()
 
     def _update_children(self):
         """
-- 
2.43.0


From bb45533ab2d895fc4333400722e7309ac2660039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 16/29] fix: keep the beach line tree balanced

Heights of the ancestors were stale after a rotation, only the root was
rebalanced after an arc disappeared, and nothing was rebalanced when an arc was
added next to an equally high one.
---
 foronoi/algorithm.py | 11 +++++++----
 foronoi/tree/tree.py |  3 +++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 20f2c7d..35c55b3 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -338,6 +338,7 @@ class Algorithm(Subject):
 
         # If the right breakpoint does not intersect, we don't need to insert circle events.
         if not breakpoint_right.does_intersect():
+            self.status_tree = Tree.balance_and_propagate(root)
             return
 
         node_a, node_b, node_c = root.left.predecessor, root.left, root.right.left
@@ -497,14 +498,15 @@ class Algorithm(Subject):
         if arc_node.is_left_child():
 
             # Replace the right breakpoint by the right node
-            root = arc_node.parent.replace_leaf(arc_node.parent.right, root)
+            sibling = arc_node.parent.right
+            root = arc_node.parent.replace_leaf(sibling, root)
 
             # Mark the right breakpoint as removed and right breakpoint
             removed = arc_node.parent.data
             right = removed
 
             # Rebalance the tree
-            root = Tree.balance_and_propagate(root)
+            root = Tree.balance_and_propagate(sibling)
 
             # Find the left breakpoint
             left_breakpoint = Breakpoint(breakpoint=(predecessor.get_value().origin, arc_node.get_value().origin))
@@ -525,14 +527,15 @@ class Algorithm(Subject):
         else:
 
             # Replace the left breakpoint by the left node
-            root = arc_node.parent.replace_leaf(arc_node.parent.left, root)
+            sibling = arc_node.parent.left
+            root = arc_node.parent.replace_leaf(sibling, root)
 
             # Mark the left breakpoint as removed
             removed = arc_node.parent.data
             left = removed
 
             # Rebalance the tree
-            root = Tree.balance_and_propagate(root)
+            root = Tree.balance_and_propagate(sibling)
 
             # Find the right breakpoint
             right_breakpoint = Breakpoint(breakpoint=(arc_node.get_value().origin, successor.get_value().origin))
diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 4a4a699..035a860 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -190,6 +190,9 @@ class Tree:
         :return: The root of the balanced tree
         """
 
+        # The heights below may have changed by earlier rotations
+        node.update_height()
+
         node = Tree.balance(node)
 
         if node.parent is None:
-- 
2.43.0


From 5331d2a798c7af1b9527e2445aef8ca41f037188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 17/29] fix: an edge through a corner of the bounding polygon
 ends exactly in that corner

---
 foronoi/graph/algebra.py | 4 +++-
 foronoi/graph/polygon.py | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/foronoi/graph/algebra.py b/foronoi/graph/algebra.py
index 0ed5ab5..626145e 100644
--- a/foronoi/graph/algebra.py
+++ b/foronoi/graph/algebra.py
@@ -43,7 +43,9 @@ class Algebra:
         t1 = np.cross(v2, v1) / np.dot(v2, v3)
         t2 = np.dot(v1, v3) / np.dot(v2, v3)
 
-        if t1 > 0.0 and 0.0 <= t2 <= 1.0:
+        # Rounding must not let a ray through the corner of a polygon slip between its two sides
+        margin = 1e-12
+        if t1 > 0.0 and -margin <= t2 <= 1.0 + margin:
             return [orig + t1 * direction]
         return []
 
diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index d9fed61..678444d 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -1,3 +1,5 @@
+from decimal import Decimal
+
 from foronoi.graph import Coordinate, Vertex, HalfEdge
 from foronoi.graph.algebra import Algebra
 import numpy as np
@@ -173,6 +175,13 @@ class Polygon(Subject):
         # Get point of intersection
         point = self._get_intersection_point(end, start)
 
+        # Rounding must not separate an intersection from the corner of the polygon it coincides with
+        if point is not None:
+            corner = self._get_closest_point(point, self.points)
+            size = max(abs(c) for c in (self.min_x, self.max_x, self.min_y, self.max_y))
+            if Algebra.distance(point, corner) <= size * Decimal("1e-13"):
+                point = corner
+
         # Create vertex
         v = Vertex(point.x, point.y) if point is not None else Vertex(None, None)
         v.connected_edges.append(edge)
-- 
2.43.0


From fb1ea224372488681357d259835bbde052631549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 18/29] fix: VoronoiObserver ignored its figsize

---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index cb62250..4055cbe 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -81,20 +81,20 @@ class VoronoiObserver(Observer, ABC):
             return False
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.construction)
             settings.update(self.settings)
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.clipping)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.final)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
-- 
2.43.0


From 50c3a309cbab5d0a1aea85ee4f84060f32aa5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 19/29] fix: a Visualizer with a float canvas offset raised a
 TypeError

---
 foronoi/visualization/visualizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 6e22afb..1e1baa3 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -545,6 +545,7 @@ class Visualizer:
 
     @staticmethod
     def _canvas_size(bounding_polygon, offset):
+        offset = Decimal(str(offset))
         max_y = bounding_polygon.max_y + offset
         max_x = bounding_polygon.max_x + offset
         min_x = bounding_polygon.min_x - offset
-- 
2.43.0


From d24de2ff3f67ace2b16627c69bf8f6a3579a242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 20/29] fix: plotting with the sweep line at 0 used the
 diagram's own sweep line

---
 foronoi/visualization/visualizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 1e1baa3..a29fecb 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -336,7 +336,7 @@ class Visualizer:
         self: Visualizer
         """
         edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
         for edge in edges:
             self._plot_edge(edge, sweep_line, show_labels, color)
             self._plot_edge(edge.twin, sweep_line, print_name=False, color=color)
@@ -361,7 +361,7 @@ class Visualizer:
         self: Visualizer
         """
         edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
         for edge in edges:
             self._draw_line_from_edge_midpoint_to_incident_point(edge, sweep_line)
             self._draw_line_from_edge_midpoint_to_incident_point(edge.twin, sweep_line)
@@ -390,7 +390,7 @@ class Visualizer:
 
         """
         arcs = arcs or self.voronoi.arcs
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
@@ -447,7 +447,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
-- 
2.43.0


From 70eef26de3c03df90c418f0674234271ea4cdf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 21/29] fix: plotting an empty list of parts drew all parts of
 the diagram

---
 foronoi/visualization/visualizer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index a29fecb..a816955 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -228,7 +228,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        vertices = vertices or self.voronoi.vertices
+        vertices = self.voronoi.vertices if vertices is None else vertices
 
         xs = [vertex.xd for vertex in vertices]
         ys = [vertex.yd for vertex in vertices]
@@ -254,7 +254,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        vertices = vertices or self.voronoi.vertices
+        vertices = self.voronoi.vertices if vertices is None else vertices
         scale = Decimal(str(scale))
 
         for vertex in vertices:
@@ -300,7 +300,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        points = points or self.voronoi.sites
+        points = self.voronoi.sites if points is None else points
 
         xs = [point.xd for point in points]
         ys = [point.yd for point in points]
@@ -335,7 +335,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        edges = edges or self.voronoi.edges
+        edges = self.voronoi.edges if edges is None else edges
         sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
         for edge in edges:
             self._plot_edge(edge, sweep_line, show_labels, color)
@@ -360,7 +360,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        edges = edges or self.voronoi.edges
+        edges = self.voronoi.edges if edges is None else edges
         sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
         for edge in edges:
             self._draw_line_from_edge_midpoint_to_incident_point(edge, sweep_line)
@@ -389,7 +389,7 @@ class Visualizer:
         self: Visualizer
 
         """
-        arcs = arcs or self.voronoi.arcs
+        arcs = self.voronoi.arcs if arcs is None else arcs
         sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
 
         # Get axis limits
-- 
2.43.0


From 71bc764e9b1e7a91e8d747db16d0f723f2bb7ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 22/29] fix: the outline of a bounding circle was drawn around
 the wrong centre

---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index a816955..bffa719 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -202,7 +202,7 @@ class Visualizer:
         if hasattr(self.voronoi.bounding_poly, 'radius'):
             # Draw bounding box
             self.canvas.add_patch(
-                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.xd),
+                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.yd),
                                self.voronoi.bounding_poly.radius,
                                fill=False,
                                edgecolor=Colors.BOUNDING_BOX)
-- 
2.43.0


From 92a325eeb2ed894514ff3d6539da80394c9097b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 23/29] fix: arc labels named the wrong site at site events

---
 foronoi/visualization/visualizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index bffa719..bb8aaf9 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -400,6 +400,7 @@ class Visualizer:
         x = np.linspace(float(min_x), float(max_x), 1000)
 
         plot_lines = []
+        plotted_arcs = []
 
         for arc in arcs:
             plot_line = arc.get_plot(x, sweep_line)
@@ -412,6 +413,7 @@ class Visualizer:
                     self.canvas.plot(x, plot_line, linestyle="--", color=Colors.ARC)
 
                 plot_lines.append(plot_line)
+                plotted_arcs.append(arc)
 
         # Plot the bottom of all the arcs
         if len(plot_lines) > 0:
@@ -419,7 +421,7 @@ class Visualizer:
             self.canvas.plot(x, bottom, color=Colors.BEACH_LINE)
 
             if show_labels:
-                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, arcs)
+                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, plotted_arcs)
 
         return self
 
-- 
2.43.0


From f66fcf52b68329f996d8d9d8a85408a091a6667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:12 +0000
Subject: [PATCH 24/29] fix: Voronoi vertices on the border of the bounding
 polygon

A vertex exactly on the border was treated as inside or outside depending on the side of the polygon: edges were
dropped or kept although they only touch the polygon, and cells got wrong areas or could not be traversed. Edges
now end in such a vertex if they come from the inside and are removed otherwise, and the ends of several edges in
one point of the border are ordered by the direction of their edges.
---
 foronoi/graph/polygon.py | 77 +++++++++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 13 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 678444d..32a229d 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -42,9 +42,21 @@ class Polygon(Subject):
     def _get_ordered_vertices(self, vertices):
         vertices = [vertex for vertex in vertices if vertex.xd is not None]
         clockwise = sorted(vertices,
-                           key=lambda vertex: (-180 - Algebra.calculate_angle(vertex, self.center)) % 360)
+                           key=lambda vertex: ((-180 - Algebra.calculate_angle(vertex, self.center)) % 360,
+                                               self._get_edge_direction(vertex)))
         return clockwise
 
+    def _get_edge_direction(self, vertex):
+        """
+        The angle between the edge that ends in a vertex on the border and the line to the center. Determines the order
+        of the vertices of edges that end in the same point.
+        """
+        target = vertex.connected_edges[0].target if len(vertex.connected_edges) > 0 else None
+        if not isinstance(target, Vertex) or target.xd is None:
+            return 0
+        angle = Algebra.calculate_angle(target, vertex) - Algebra.calculate_angle(self.center, vertex)
+        return (angle + 180) % 360
+
     @staticmethod
     def _get_closest_point(position, points):
         distances = [Algebra.distance(position, p) for p in points]
@@ -116,7 +128,7 @@ class Polygon(Subject):
             # Set previous edge
             previous_edge = edge
 
-        existing_vertices = [i for i in existing_vertices if self.inside(i)]
+        existing_vertices = [i for i in existing_vertices if self._strictly_inside(i)]
 
         return edges, vertices[:-1] + existing_vertices
 
@@ -144,13 +156,17 @@ class Polygon(Subject):
         resulting_edges = list()
         for edge in edges:
 
-            if edge.get_origin() is None or not self.inside(edge.get_origin()):
+            # Edges that only touch the border are outside
+            start, end = self._get_ends(edge)
+            outside = self._goes_outside(start, end) or self._goes_outside(end, start)
+
+            if not outside and (edge.get_origin() is None or not self._strictly_inside(start)):
                 self._finish_edge(edge)
 
-            if edge.twin.get_origin() is None or not self.inside(edge.twin.get_origin()):
+            if not outside and (edge.twin.get_origin() is None or not self._strictly_inside(end)):
                 self._finish_edge(edge.twin)
 
-            if edge.get_origin() is not None and edge.twin.get_origin() is not None:
+            if not outside and edge.get_origin() is not None and edge.twin.get_origin() is not None:
                 resulting_edges.append(edge)
             else:
                 edge.delete()
@@ -159,7 +175,7 @@ class Polygon(Subject):
 
         return resulting_edges
 
-    def _finish_edge(self, edge):
+    def _get_ends(self, edge):
         # Sweep line position
         sweep_line = self.min_y - (self.max_x - self.min_x) - (self.max_y - self.min_y)
 
@@ -172,15 +188,20 @@ class Polygon(Subject):
         # End should be a vertex
         end = edge.twin.get_origin(y=sweep_line, max_y=max_y)
 
-        # Get point of intersection
-        point = self._get_intersection_point(end, start)
+        return start, end
+
+    def _finish_edge(self, edge):
+        start, end = self._get_ends(edge)
+
+        # Get point of intersection, which is the start if it is a Voronoi vertex on the border
+        point = start if self._on_border(start) else self._get_intersection_point(end, start)
 
-        # Rounding must not separate an intersection from the corner of the polygon it coincides with
+        # Rounding must not separate an intersection from the corner or other intersection it coincides with
         if point is not None:
-            corner = self._get_closest_point(point, self.points)
-            size = max(abs(c) for c in (self.min_x, self.max_x, self.min_y, self.max_y))
-            if Algebra.distance(point, corner) <= size * Decimal("1e-13"):
-                point = corner
+            existing = [vertex for vertex in self.polygon_vertices if vertex.xd is not None]
+            closest = self._get_closest_point(point, self.points + existing)
+            if Algebra.distance(point, closest) <= self._margin():
+                point = closest
 
         # Create vertex
         v = Vertex(point.x, point.y) if point is not None else Vertex(None, None)
@@ -190,6 +211,36 @@ class Polygon(Subject):
 
         return edge
 
+    def _margin(self):
+        """The distance below which points coincide up to rounding."""
+        return max(abs(c) for c in (self.min_x, self.max_x, self.min_y, self.max_y)) * Decimal("1e-13")
+
+    def _on_border(self, point):
+        """Tests whether a point is on the border of the polygon up to rounding."""
+        for a, b in zip(self.points, self.points[1:] + self.points[:1]):
+            dx, dy = b.xd - a.xd, b.yd - a.yd
+            length = dx ** 2 + dy ** 2
+            if length == 0:
+                continue
+            t = ((point.xd - a.xd) * dx + (point.yd - a.yd) * dy) / length
+            t = min(max(t, Decimal(0)), Decimal(1))
+            if Algebra.distance(point, Coordinate(a.xd + t * dx, a.yd + t * dy)) <= self._margin():
+                return True
+        return False
+
+    def _strictly_inside(self, point):
+        return self.inside(point) and not self._on_border(point)
+
+    def _goes_outside(self, start, end):
+        """Tests whether a line from a point on the border immediately leaves the polygon."""
+        if start is None or end is None or not self._on_border(start):
+            return False
+        length = Algebra.distance(start, end)
+        if length <= self._margin():
+            return True
+        step = min(self._margin() * 10000 / length, Decimal("0.5"))
+        return not self.inside(Coordinate(start.xd + (end.xd - start.xd) * step, start.yd + (end.yd - start.yd) * step))
+
     def _on_edge(self, point):
         vertices = self.points + self.points[0:1]
         for i in range(0, len(vertices) - 1):
-- 
2.43.0


From 72e3820f8f5e0b41c16807b5b256e42ab554bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:06 +0000
Subject: [PATCH 25/29] fix: an edge that ends in a corner of the bounding
 polygon ends in the corner's exact position

---
 foronoi/graph/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 32a229d..ecf30b7 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -204,7 +204,7 @@ class Polygon(Subject):
                 point = closest
 
         # Create vertex
-        v = Vertex(point.x, point.y) if point is not None else Vertex(None, None)
+        v = Vertex(point.xd, point.yd) if point is not None else Vertex(None, None)
         v.connected_edges.append(edge)
         edge.origin = v
         self.polygon_vertices.append(v)
-- 
2.43.0


From f1930e831064a11c85096fede0f4043a9d4bfb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:52 +0000
Subject: [PATCH 26/29] fix: edges from far away vertices end precisely on the
 border

---
 foronoi/graph/polygon.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index ecf30b7..578ce58 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -289,7 +289,23 @@ class Polygon(Subject):
 
         return inside
 
+    def _get_start(self, orig, end):
+        """
+        The start of a ray that ends in the polygon. Floats do not tell precisely where a ray from far away meets the border,
+        so such a ray starts closer to the polygon.
+        """
+        if orig is None or end is None:
+            return orig
+        size = (self.max_x - self.min_x) + (self.max_y - self.min_y)
+        distance = Algebra.distance(orig, self.center)
+        length = Algebra.distance(orig, end)
+        if length == 0 or not 100 * size < distance < Decimal("inf"):
+            return orig
+        step = (distance - size) / length
+        return Coordinate(orig.xd + (end.xd - orig.xd) * step, orig.yd + (end.yd - orig.yd) * step)
+
     def _get_intersection_point(self, orig, end):
+        orig = self._get_start(orig, end)
         p = self.points + [self.points[0]]
         points = []
 
-- 
2.43.0


From fc12c67c238ce330de3d47375170535b96dfc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:07 +0000
Subject: [PATCH 27/29] fix: almost collinear sites have one circle event, not
 one in each direction

---
 foronoi/graph/algebra.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/foronoi/graph/algebra.py b/foronoi/graph/algebra.py
index 626145e..4c01957 100644
--- a/foronoi/graph/algebra.py
+++ b/foronoi/graph/algebra.py
@@ -69,16 +69,8 @@ class Algebra:
 
     @staticmethod
     def check_clockwise(a, b, c, center):
-        angle_1 = Algebra.calculate_angle(a, center)
-        angle_2 = Algebra.calculate_angle(b, center)
-        angle_3 = Algebra.calculate_angle(c, center)
-
-        counter_clockwise = (angle_3 - angle_1) % 360 > (angle_3 - angle_2) % 360
-
-        if counter_clockwise:
-            return False
-
-        return True
+        # Angles around a center far away can't be told apart, so look at the direction of the turn in b
+        return (b.xd - a.xd) * (c.yd - b.yd) - (b.yd - a.yd) * (c.xd - b.xd) < 0
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 5a54485f31577580d4d522abde495174fb8b6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:32 +0000
Subject: [PATCH 28/29] fix: breakpoints of almost equally high sites are
 computed without cancellation

---
 foronoi/nodes/breakpoint.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index 0477afe..a7e34b0 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -98,11 +98,13 @@ class Breakpoint:
         else:
             # We now need to solve for x
             # 1/u * (x**2 - 2*a*x + a**2 + b**2 - l**2) = 1/v * (x**2 - 2*c*x + c**2 + d**2 - l**2)
-            # Then we let Wolfram alpha do the heavy work for us, and we put it here in the code :D
-            # (rounding can make the discriminant slightly negative)
-            x = -(Decimal.sqrt(max(Decimal(0),
-                v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (v - u) + l ** 2 * (
-                    u - v) ** 2)) + a * v - c * u) / (u - v)
+            # With u - v = 2 * (b - d) there are two ways to write the solution, one of which has no cancellation
+            e = c - a
+            root = Decimal.sqrt(max(Decimal(0), u * v * (e ** 2 + (b - d) ** 2)))
+            if u * e > 0:
+                x = a + u * (e ** 2 - v * (b - d) / 2) / (u * e + root)
+            else:
+                x = a + (u * e - root) / (2 * (b - d))
             result.xd = x
 
         # We have to re-evaluate this, since the point might have been changed
-- 
2.43.0


From 043c22888ec11a9934ff8a8a156d42f3f3767d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:32 +0000
Subject: [PATCH 29/29] fix: edges that go far away upwards are clipped
 precisely

---
 foronoi/graph/polygon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 578ce58..940f9b0 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -301,6 +301,11 @@ class Polygon(Subject):
         length = Algebra.distance(orig, end)
         if length == 0 or not 100 * size < distance < Decimal("inf"):
             return orig
+        remaining = Algebra.distance(end, self.center)
+        if remaining < distance:
+            # Seen from the end, which is known more precisely
+            step = min(Decimal(1), (remaining + size) / length)
+            return Coordinate(end.xd + (orig.xd - end.xd) * step, end.yd + (orig.yd - end.yd) * step)
         step = (distance - size) / length
         return Coordinate(orig.xd + (end.xd - orig.xd) * step, orig.yd + (end.yd - orig.yd) * step)
 
-- 
2.43.0

