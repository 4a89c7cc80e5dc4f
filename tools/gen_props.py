#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids and wording stay in one place)."""
import json, os
DOM = ("every list of 1..300 distinct sites inside or on the border of a convex bounding polygon or box (any position, "
       "size and number of corners; int, float, str or Decimal coordinates with at most about 10^4 lattice steps across "
       "the polygon) such that Voronoi vertices are exactly on the polygon's border or at least 10^-6 of its size from it")
ALG, POL, TREE = "foronoi/algorithm.py", "foronoi/graph/polygon.py", "foronoi/tree/tree.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "Cells are exactly the nearest-site regions and tile the polygon",
  "After a diagram is created for distinct sites in a convex bounding polygon, the vertices() "
  "of each site, in order, are the corners of the region of the polygon that is nearest to that site. The cells do not overlap, leave no gap, "
  "and their areas add up to the area of the polygon.",
  ["inputs"], DOM, "The unit tests compare the areas of a few fixed inputs; a wrong cell for another configuration (cocircular, collinear, equal "
  "heights, other polygon positions, many sites) is never exercised.",
  [ALG, POL, "foronoi/graph/point.py", "foronoi/graph/half_edge.py"],
  [("sweep builds the Voronoi edges", ALG + ":create_diagram"), ("clipping to the polygon", POL + ":finish_edges"),
   ("closing the cells along the border", POL + ":finish_polygon")],
  ["Voronoi.sites", "Point.vertices()", "Point.area()"])

p("C02", "Half-edge records are mutually consistent and bound each cell in a loop",
  "In a finished diagram every edge has two half-edges that are each other's twin, start where the other ends, and belong to different cells (the outer one of a "
  "border edge to none). For each half-edge of a cell, next and prev are each other's inverse, next starts where the half-edge ends and belongs to the same cell, "
  "and following next from a site's first edge visits each half-edge of that cell exactly once and returns.",
  ["inputs"], DOM, "Tests look at areas and a few counts; link errors that do not change an area (prev, incident point, twin origin) stay invisible.",
  [ALG, POL, "foronoi/graph/half_edge.py", "foronoi/graph/point.py"],
  [("links between half-edges at a new vertex", ALG + ":handle_circle_event"), ("links along the border", POL + ":finish_polygon"),
   ("unlinking", "foronoi/graph/half_edge.py:delete")],
  ["Voronoi.edges", "HalfEdge.twin/next/prev/origin/target/incident_point", "Point.borders()", "Point.first_edge"])

p("C03", "The vertex list is exact and knows the half-edges that start at each vertex",
  "The vertices of a finished diagram are exactly the Voronoi vertices inside the polygon, the points where Voronoi edges cross its border, and its corners, each listed once (with "
  "zero-length edges removed). The connected edges of a vertex are exactly the half-edges of the diagram that originate there, each once, and every half-edge originates in a listed vertex.",
  ["inputs"], DOM, "Vertex completeness and incidence quantify over all site configurations; tests only check a vertex count and two coordinates.",
  [ALG, POL, "foronoi/graph/vertex.py"],
  [("vertex creation", ALG + ":handle_circle_event"), ("border vertices", POL + ":_finish_edge"), ("merging", ALG + ":clean_up_zero_length_edges")],
  ["Voronoi.vertices", "Vertex.connected_edges"])

p("C04", "Removing zero-length edges only contracts them",
  "With zero-length edge removal on (the default), no edge of the finished diagram has coinciding end points and no two vertices coincide. Compared with the same input with removal off, "
  "the cells are the same and the diagram differs by exactly the contraction of the zero-length edges: no other edge or vertex disappears, and all links stay consistent in both.",
  ["inputs", "configurations"], DOM + "; remove_zero_length_edges on and off; especially clusters of 4 or more cocircular sites",
  "One test compares two hand-made inputs; the merge order and clusters of several zero-length edges are not covered.",
  [ALG, "foronoi/graph/half_edge.py"], [("merge", ALG + ":clean_up_zero_length_edges"), ("unlink", "foronoi/graph/half_edge.py:delete")],
  ["Voronoi(remove_zero_length_edges=...)", "Voronoi.edges", "Voronoi.vertices"])

p("C05", "Events are handled top to bottom, each site once, and name the sites",
  "The sweep line never moves up, and events are handled in order of decreasing y and, for sites of equal y, increasing x. Every site is handled in exactly one site event and gets as name its rank (0, 1, ...) in that order; "
  "during every step the sweep line position equals the y-coordinate of the event being handled.",
  ["inputs"], DOM, "Heap order bugs appear only for particular event sets (ties, negative coordinates, circle events between equal sites).",
  [ALG, "foronoi/events/event.py", "foronoi/events/circle_event.py", "foronoi/events/site_event.py"],
  [("priority", "foronoi/events/event.py:__lt__"), ("main loop", ALG + ":create_diagram")],
  ["Voronoi.event", "Voronoi.sweep_line", "Point.name", "Message.STEP_FINISHED"])

p("C06", "After every step the beach line is the lower envelope of the arcs",
  "After each handled event the leaves of the status tree, from left to right, are exactly the arcs of the lower envelope of the parabolas of the sites handled so far for the current sweep line (zero-width arcs only where events coincide). "
  "A site event inserts one arc in the arc vertically above the site; a circle event removes exactly the arc that vanished.",
  ["inputs", "histories"], DOM + "; every prefix of the event sequence",
  "Tests check some leaf lists of fixed inputs; a wrong arc that is repaired later or only in degenerate positions is not seen.",
  [ALG, TREE, "foronoi/nodes/breakpoint.py"],
  [("arc search", TREE + ":find_leaf_node"), ("breakpoint position", "foronoi/nodes/breakpoint.py:get_intersection"), ("arc removal", ALG + ":_update_breakpoints")],
  ["Voronoi.status_tree at Message.STEP_FINISHED"])

p("C07", "Circle events are handled exactly where three cells meet",
  "A circle event is handled if and only if the breakpoints around an arc converge at that sweep position: its three sites lie on an empty circle whose center becomes a vertex and whose lowest point is the event position. No converging arc is missed, "
  "no false alarm is handled, every circle event still marked valid belongs to three consecutive arcs, and after the sweep none is left.",
  ["inputs", "histories"], DOM + "; every prefix of the event sequence",
  "Missed or stale circle events need specific insertion orders between three converging arcs; tests sample a handful.",
  [ALG, "foronoi/events/circle_event.py", "foronoi/graph/algebra.py"],
  [("creation", "foronoi/events/circle_event.py:create_circle_event"), ("convergence test", "foronoi/graph/algebra.py:check_clockwise"),
   ("false alarms", ALG + ":handle_site_event")],
  ["Voronoi.event", "Voronoi.event_queue", "CircleEvent.point_triple/center/radius/is_valid"])

p("C08", "The status tree is a well-formed balanced search tree after every step",
  "After each step every internal node of the status tree has two children that point back to it, each breakpoint names the arcs directly left and right of it, breakpoints are ordered from left to right, and predecessor and successor of each leaf are its neighbours on the beach line. "
  "Stored heights are correct and the two subtrees of any node differ by at most one in height.",
  ["inputs", "histories"], DOM + "; every prefix of the event sequence",
  "Tree shape depends on the whole event history; tests insert a few keys into a generic tree.",
  [TREE, "foronoi/tree/node.py", ALG, "foronoi/nodes/internal_node.py", "foronoi/nodes/leaf_node.py"],
  [("rotation", TREE + ":balance_and_propagate"), ("replacement", "foronoi/tree/node.py:replace_leaf"), ("breakpoint update", ALG + ":_update_breakpoints")],
  ["Voronoi.status_tree at Message.STEP_FINISHED", "Node.parent/left/right/height/predecessor/successor"])

p("C09", "The partial edge list always matches the part of the diagram swept so far",
  "After each step there is exactly one edge for each pair of neighbouring arcs ever separated by a site or circle event; a half-edge originates in a vertex if its end was reached by a circle event and otherwise in the breakpoint that traces it, which separates the edge's two sites. "
  "Every vertex found so far is the origin of exactly three half-edges, and the half-edges that arrive there continue in the ones of the same cell that leave.",
  ["inputs", "histories"], DOM + "; every prefix of the event sequence",
  "The intermediate edge list is what observers visualize; no test inspects it.",
  [ALG, "foronoi/graph/half_edge.py", "foronoi/graph/vertex.py"],
  [("edge creation", ALG + ":handle_site_event"), ("edge ends", ALG + ":handle_circle_event")],
  ["Voronoi.edges and Voronoi.vertices at Message.STEP_FINISHED and SWEEP_FINISHED"])

p("C10", "Observers receive the complete message sequence in order, from the diagram",
  "During create_diagram each attached observer is notified exactly once of every message, observers in the order of attachment, with the diagram as sender: one STEP_FINISHED after each handled event (never for a skipped false alarm), then one SWEEP_FINISHED, then one VORONOI_FINISHED as the last message. "
  "When STEP_FINISHED arrives the state includes that event; DEBUG messages carry a text payload; observers attached or detached on the way receive exactly the messages sent while attached.",
  ["inputs", "histories", "schedules"], DOM + "; any set of observers attached before or during creation, on fresh or reused objects",
  "The tests attach no recording observer; order and multiplicity depend on input (false alarms) and attach history.",
  [ALG, "foronoi/observers/subject.py", "foronoi/observers/message.py", POL],
  [("notification", "foronoi/observers/subject.py:notify_observers"), ("main loop", ALG + ":create_diagram")],
  ["Observer.update(subject, message, **kwargs)"])

p("C11", "The provided observers only watch, honour their options and count callbacks",
  "Attaching VoronoiObserver, TreeObserver or DebugObserver with any options never changes the resulting diagram. VoronoiObserver and TreeObserver call back exactly once for each message selected by their visualize options (TreeObserver's result only when steps are off), with n_messages and messages counting the earlier callbacks; DebugObserver passes on each debug text once; "
  "the options and settings of one observer never affect another.",
  ["inputs", "configurations", "histories"], DOM + "; every combination of the visualize flags, text_based, settings and callbacks, one or several observers",
  "Tests check no observer option; combinations and leaks between observers are unexplored.",
  ["foronoi/observers/voronoi_observer.py", "foronoi/observers/tree_observer.py", "foronoi/observers/debug_observer.py", "foronoi/visualization/visualizer.py"],
  [("message selection", "foronoi/observers/voronoi_observer.py:update"), ("message selection", "foronoi/observers/tree_observer.py:update")],
  ["callback", "observer.n_messages", "observer.messages", "Voronoi result"])

p("C12", "The diagram does not depend on the order or representation of the sites",
  "Permuting the input list, or giving the same coordinates as int, float, Decimal, str or numpy numbers in tuples, lists or an array, yields the same cells for the same sites. Voronoi.sites lists the sites in the order given with exactly the coordinates given, and the caller's input is not modified.",
  ["inputs"], DOM + "; all permutations (sampled) and number representations", "Tests use one order and one representation per input.",
  [ALG, "foronoi/graph/coordinate.py", "foronoi/graph/point.py"],
  [("conversion", "foronoi/graph/coordinate.py:_to_dec"), ("queue", ALG + ":initialize")], ["Voronoi.sites", "Point.vertices()"])

p("C13", "A result depends only on its own input, not on what was created before",
  "Creating a diagram on an object that has been used before, or with a polygon shared with other diagrams, gives the same result as with fresh objects. Creating another diagram, with the same or another polygon, never changes the sites, edges, vertices or cells of a finished one.",
  ["histories"], "all sequences of creating polygons, diagrams (shared or own polygon) and calling create_diagram up to the explored length, over inputs in the domain of C01",
  "Every test builds fresh objects once.", [ALG, POL], [("reset", ALG + ":initialize"), ("reset", POL + ":finish_edges")],
  ["Voronoi.create_diagram", "Polygon shared by diagrams"])

p("C14", "Diagram creation always completes, with a linear number of steps and parts",
  "create_diagram returns without exception for distinct sites in a convex polygon (or a contrib circle), for one site, all collinear, all cocircular, grid and large inputs alike, and so do borders(), vertices() and area(). "
  "It handles n site events and, unless all sites are collinear, exactly 2n - 2 - h circle events, where h sites lie on the border of the convex hull; finished, V - E + n = 1 holds for V vertices and E edges.",
  ["inputs"], DOM, "Crashes and endless loops occurred only for particular coordinates (rounding, collinear, polygon positions) that no test uses.",
  [ALG, POL, "foronoi/nodes/breakpoint.py", "foronoi/events/circle_event.py"],
  [("main loop", ALG + ":create_diagram"), ("breakpoints", "foronoi/nodes/breakpoint.py:get_intersection")], ["create_diagram", "Point.borders()", "len(edges)", "len(vertices)"])

p("C15", "Moving, scaling, mirroring or turning the input does the same to the diagram",
  "Translating sites and polygon, scaling both by the same factor, mirroring them in an axis or turning them by a quarter turn transforms the cells of the diagram in the same way: each site's cell is the transformed cell, with the same neighbours.",
  ["inputs"], DOM + "; exact decimal translations (across the origin, and away from it up to 10^6 times the extent), scalings by powers of ten and two, the 8 symmetries of the square",
  "Tests only use small positive coordinates.", [ALG, POL, "foronoi/graph/algebra.py", "foronoi/nodes/breakpoint.py"],
  [("clipping", POL + ":_finish_edge"), ("angles", "foronoi/graph/algebra.py:calculate_angle")], ["Point.vertices()", "twin.incident_point"])

p("C16", "Polygons are independent of how they are specified and answer inside correctly",
  "A convex polygon given with its corners in any order is stored as the same clockwise corner cycle with correct bounds; a BoundingBox is the Polygon of its four corners, and equal polygons give equal diagrams. inside(point) is true for every point strictly inside and false for every point strictly outside.",
  ["inputs", "configurations"], "all convex polygons with 3..10 corners (any order of corners, any position and scale), all points not on the border; diagrams as in C01",
  "Tests use a few polygons in one corner order.", [POL, "foronoi/graph/bounding_box.py", "foronoi/graph/algebra.py"],
  [("ordering", POL + ":_order_points"), ("ray casting", POL + ":inside")], ["Polygon.points", "Polygon.get_coordinates()", "Polygon.inside", "min_x/max_x/min_y/max_y"])

p("C17", "The generic tree stays a balanced search tree under any sequence of operations",
  "After any sequence of Tree.insert and Tree.delete with distinct keys, the tree holds exactly the inserted and not yet deleted keys in search order, is height-balanced with correct heights and parent pointers, and find returns the node with the key or None. "
  "On trees whose inner nodes have two children, as in the beach line, find_leaf_node, get_leaves, find_value, minimum, maximum, the successor and predecessor of leaves, replace_leaf, balance_and_propagate and single rotations agree with the sequence of the leaves.",
  ["histories", "inputs"], "all insert/delete histories up to the explored length and number of keys, then sampled longer ones",
  "The tests run a few fixed insertions; rebalancing cases and deletions of inner nodes are not reached.", [TREE, "foronoi/tree/node.py"],
  [("insert", TREE + ":insert"), ("delete", TREE + ":delete"), ("balance", TREE + ":balance")], ["Tree.insert/delete/find/find_leaf_node/get_leaves", "Node.successor/predecessor/height"])

p("C18", "Notification reaches exactly the attached observers, in order, once each",
  "For any sequence of attaching, detaching, inheriting and notifying, notify_observers updates each observer attached to the subject (or inherited from its parent) at that moment exactly once per attachment, in attachment order, with message and arguments unchanged and with the parent as sender for a child. "
  "Observers that detach themselves or others attach during a notification do not make it skip or repeat anyone else, and attach, detach and notify return the subject.",
  ["histories"], "all histories of attach, detach, inherit and notify up to the explored length over parent and child subjects and several observers (children do not attach their own observers)",
  "No test covers subjects with children or changes during notification.", ["foronoi/observers/subject.py", "foronoi/observers/observer.py"],
  [("delivery", "foronoi/observers/subject.py:notify_observers"), ("inheritance", "foronoi/observers/subject.py:inherit_observers_from")], ["Observer.update", "Subject.get_observers()"])

p("C19", "The visualizer draws exactly the diagram and never changes it",
  "Plotting, finished or at any step, leaves the diagram unchanged and draws one line per edge between its end points, one marker per vertex and site (labelled P<name> if asked), the polygon outline, the sweep line at its position, the circle (and triangle) of a circle event and the beach line as the lower envelope; "
  "plot_all draws exactly the selected components, and the limits are the polygon's bounds enlarged by the offset.",
  ["inputs", "configurations", "histories"], DOM + "; every step of the sweep; all combinations of the plot_all flags (sampled)",
  "No test inspects what is drawn.", ["foronoi/visualization/visualizer.py", "foronoi/nodes/arc.py"],
  [("drawing", "foronoi/visualization/visualizer.py"), ("arc curve", "foronoi/nodes/arc.py:get_plot")], ["Visualizer.canvas artists (lines, collections, patches, texts, limits)"])

p("C20", "Site and vertex accessors agree with each other and with the exact coordinates",
  "For each site of a finished diagram borders() lists the half-edges of its cell in order, vertices() their origins, and area() equals the shoelace area of exactly these vertices (area(digits) the same rounded), whatever the position of the cell. x, y, xy are the float values of the exact decimals xd, yd, which keep the decimal representation of the value given or assigned, through any sequence of assignments to x, xd, y and yd; coordinates subtract exactly (to 28 digits) and no operation changes another coordinate or object.",
  ["inputs"], DOM + "; all coordinate values representable as int, float, Decimal or decimal text",
  "Tests compare areas at one offset with a tolerance.", ["foronoi/graph/point.py", "foronoi/graph/coordinate.py", "foronoi/graph/half_edge.py"],
  [("shoelace", "foronoi/graph/point.py:_shoelace"), ("decimals", "foronoi/graph/coordinate.py:_to_dec")], ["Point.area/borders/vertices/x/y/xy/xd/yd"])

p("C21", "Breakpoints and arcs are where the geometry says for every sweep position",
  "For any two sites and any sweep line below (or through one of) them, the breakpoint of the arcs (left, right) lies at equal distance from both sites and the sweep line, with the left arc lower directly to its left and the right arc lower directly to its right. The curve of an arc has equal distance to its site and the sweep line at every x; "
  "a breakpoint between equally high sites exists exactly when the left one is left, midway between them.",
  ["inputs"], "all pairs of distinct sites and sweep positions on the explored lattices, including equal heights and sites on the sweep line", "Tests evaluate a few breakpoints.",
  ["foronoi/nodes/breakpoint.py", "foronoi/nodes/arc.py"], [("intersection", "foronoi/nodes/breakpoint.py:get_intersection"), ("parabola", "foronoi/nodes/arc.py:get_plot")],
  ["Breakpoint.get_intersection(l, max_y)", "Breakpoint.does_intersect()", "Arc.get_plot(x, sweep_line)"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
