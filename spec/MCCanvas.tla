------------------------------ MODULE MCCanvas ------------------------------
(* Enumerates plans for a visualizer: sequences of commands with the kinds of arguments they can be given, and the selections of plot_all.
   The model keeps the parts a canvas shows; commands only add, and plot_all shows exactly the parts that were selected.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxCmds, MaxFlags, Emitting
VARIABLES plan, shown
vars == <<plan, shown>>

Flags == {"polygon", "edges", "vertices", "sites", "outgoing_edges", "border_to_site", "edge_labels", "site_labels", "triangles", "arcs",
          "sweep_line", "events", "arc_labels", "beach_line"}
Default == {"edges", "vertices", "sites"}
Owner == [edge_labels |-> "edges", site_labels |-> "sites", triangles |-> "events", arcs |-> "beach_line", arc_labels |-> "beach_line"]
Shows(flags) == {f \in flags : IF f \in DOMAIN Owner THEN Owner[f] \in flags ELSE TRUE}

Cmd(k, sel, l, labels, tri, arcs, flags) == [k |-> k, sel |-> sel, l |-> l, labels |-> labels, tri |-> tri, arcs |-> arcs, on |-> flags \ Default, off |-> Default \ flags]
Sels == {"all", "some", "none"}
Lines == {"own", "lower", "zero"}
Simple ==
    {Cmd("sweep", "all", l, 0, 0, 0, Default) : l \in Lines} \cup {Cmd("polygon", "all", "own", 0, 0, 0, Default)} \cup
    {Cmd("vertices", s, "own", 0, 0, 0, Default) : s \in Sels} \cup {Cmd("sites", s, "own", n, 0, 0, Default) : s \in Sels, n \in {0, 1}} \cup
    {Cmd("edges", s, l, n, 0, 0, Default) : s \in Sels, l \in Lines, n \in {0, 1}} \cup {Cmd("border", s, l, 0, 0, 0, Default) : s \in Sels, l \in Lines} \cup
    {Cmd("outgoing", s, "own", 0, 0, 0, Default) : s \in Sels} \cup {Cmd("event", "all", "own", 0, t, 0, Default) : t \in {0, 1}} \cup
    {Cmd("arcs", s, l, n, 0, a, Default) : s \in Sels, l \in Lines, n \in {0, 1}, a \in {0, 1}}
PartsOf(c) == CASE c.k = "sweep" -> {"sweep_line"} [] c.k = "polygon" -> {"polygon"} [] c.k = "vertices" -> {"vertices"}
                [] c.k = "sites" -> {"sites"} \cup (IF c.labels = 1 THEN {"site_labels"} ELSE {})
                [] c.k = "edges" -> {"edges"} \cup (IF c.labels = 1 THEN {"edge_labels"} ELSE {})
                [] c.k = "border" -> {"border_to_site"} [] c.k = "outgoing" -> {"outgoing_edges"}
                [] c.k = "event" -> {"events"} \cup (IF c.tri = 1 THEN {"triangles"} ELSE {})
                [] c.k = "arcs" -> {"beach_line"} \cup (IF c.labels = 1 THEN {"arc_labels"} ELSE {}) \cup (IF c.arcs = 1 THEN {"arcs"} ELSE {})
                [] OTHER -> Shows((Default \ c.off) \cup c.on)

Init == plan = <<>> /\ shown = {}
Add(c) == plan' = Append(plan, c) /\ shown' = shown \cup PartsOf(c)
Plot == Len(plan) < MaxCmds /\ \E c \in Simple \cup {Cmd("all", "all", "own", 0, 0, 0, Default)} : Add(c)
(* another flag of the plot_all that comes last *)
Toggle == /\ plan # <<>>
          /\ LET c == plan[Len(plan)] IN
             /\ c.k = "all" /\ Cardinality(c.on \cup c.off) < MaxFlags
             /\ \E f \in Flags \ (c.on \cup c.off) :
                  LET d == IF f \in Default THEN [c EXCEPT !.off = @ \cup {f}] ELSE [c EXCEPT !.on = @ \cup {f}] IN
                  /\ plan' = [plan EXCEPT ![Len(plan)] = d]
                  /\ shown' = UNION {PartsOf(plan'[i]) : i \in DOMAIN plan'}
Next == Plot \/ Toggle
Spec == Init /\ [][Next]_vars

ShownIsUnion == shown = UNION {PartsOf(plan[i]) : i \in DOMAIN plan}
OnlyGrows == [][Len(plan') > Len(plan) => shown \subseteq shown']_vars
LabelsNeedOwner == \A f \in shown \cap DOMAIN Owner : Owner[f] \in shown

World == [i \in DOMAIN plan |-> [k |-> plan[i].k, sel |-> plan[i].sel, l |-> plan[i].l, labels |-> plan[i].labels, tri |-> plan[i].tri, arcs |-> plan[i].arcs,
                                 on |-> SetToSeq(plan[i].on), off |-> SetToSeq(plan[i].off)]]
Emit == (Emitting /\ plan # <<>>) => PrintT(<<"HIST", ToJson(World)>>)
=============================================================================
