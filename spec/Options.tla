------------------------------ MODULE Options ------------------------------
(* The observers that come with the package (property C11): which messages they call back for, what a VoronoiObserver draws, and how they count.
   An observer is a record: type "voronoi", "tree" or "debug"; steps, clip, result: its visualize options; text: text_based (tree only);
   on, off: the settings given to a VoronoiObserver (components switched on and off).                                                *)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"DEBUG", "STEP", "SWEEP", "VORONOI"}
Flags == {"polygon", "edges", "vertices", "sites", "outgoing_edges", "border_to_site", "edge_labels", "site_labels", "triangles", "arcs",
          "sweep_line", "events", "arc_labels", "beach_line"}

Selected(o, kind) ==
    CASE o.type = "voronoi" -> IF kind = "STEP" THEN o.steps ELSE IF kind = "SWEEP" THEN o.clip ELSE IF kind = "VORONOI" THEN o.result ELSE FALSE
      [] o.type = "tree" -> IF kind = "STEP" THEN o.steps ELSE IF kind = "VORONOI" THEN o.result /\ ~o.steps ELSE FALSE
      [] OTHER -> kind = "DEBUG"

(* what a VoronoiObserver draws: the preset of the message on top of the defaults, overridden by its own settings *)
Default == {"edges", "vertices", "sites"}
Preset(kind) == CASE kind = "STEP" -> {"polygon", "events", "beach_line", "sweep_line"} [] kind = "SWEEP" -> {"polygon"} [] OTHER -> {}
Drawn(o, kind) == ((Default \cup Preset(kind)) \ o.off) \cup o.on

(* the observer after a message: number of callbacks and the messages they were for *)
Fresh == [n |-> 0, m |-> <<>>]
Count(o, c, kind) == IF Selected(o, kind) /\ o.type # "debug" THEN [n |-> c.n + 1, m |-> Append(c.m, kind)] ELSE c
=============================================================================
