------------------------------- MODULE Fortune -------------------------------
(* Fortune's sweep line algorithm as foronoi runs it.  The sweep line moves  *)
(* down; a site event inserts an arc into the beach line, a circle event     *)
(* removes one and creates a Voronoi vertex.  Edges are traced by the        *)
(* breakpoints between neighbouring arcs.                                    *)
(*                                                                           *)
(* Circle events are not kept in a queue here: a circle event is pending     *)
(* exactly when three consecutive arcs converge.  That is what the queue of  *)
(* the implementation has to agree with (property C07).                      *)
(*                                                                           *)
(* Actions take values, not only variables, so that FortuneTrace can check   *)
(* recorded executions with the very same operators.                         *)
EXTENDS Geom

VARIABLES
  S,      \* sequence of sites (points)
  todo,   \* indices of the sites not yet handled
  line,   \* y of the sweep line (meaningless before the first event)
  beach,  \* beach line: sequence of site indices, left to right
  trace,  \* edge traced by the breakpoint between beach[i] and beach[i+1]
  edges,  \* sequence of [pair, ends]: the two sites, the vertices reached so far
  verts   \* sequence of site triples: the Voronoi vertices found so far

vars == <<S, todo, line, beach, trace, edges, verts>>

-----------------------------------------------------------------------------
(* order of events *)

Above(p, q) == BLt(Y(q), Y(p)) \/ (Y(q) = Y(p) /\ BLt(X(p), X(q)))

NextSite(sites, rest, s) == s \in rest /\ \A t \in rest \ {s} : Above(sites[s], sites[t])

(* the arc at position k of beach line b vanishes at some point *)
Converges(sites, b, k) ==
  /\ k > 1 /\ k < Len(b)
  /\ Orient(sites[b[k-1]], sites[b[k]], sites[b[k+1]]) < 0

CircleAt(sites, b, k) == Circle(sites[b[k-1]], sites[b[k]], sites[b[k+1]])

Pending(sites, b) == {k \in 2..(Len(b) - 1) : Converges(sites, b, k)}

(* no pending circle event lies (more than a tie) above y *)
NoCircleAbove(sites, b, y) ==
  \A k \in Pending(sites, b) : LET c == CircleAt(sites, b, k) IN BLeq(Bottom(c), BAdd(y, BAdd(Tie, FarTol(c))))

NoSiteAbove(sites, rest, y) == \A t \in rest : BLeq(Y(sites[t]), BAdd(y, Tie))

-----------------------------------------------------------------------------
(* site events *)

(* the arc at position k covers x when the sweep line is at l *)
Covers(sites, b, k, x, l) ==
  /\ k > 1 => LeqT(BreakX(sites[b[k-1]], sites[b[k]], l), x, Tol)
  /\ k < Len(b) => LeqT(x, BreakX(sites[b[k]], sites[b[k+1]], l), Tol)

(* all arcs belong to sites at the height of site s: there are no parabolas  *)
(* yet, only rays, and the arc of s is put to the right of all others        *)
OnTopRow(sites, b, s) == \A k \in 1..Len(b) : Y(sites[b[k]]) = Y(sites[s])

Split(b, k, s) == SubSeq(b, 1, k) \o <<s>> \o SubSeq(b, k, Len(b))

SplitTrace(tr, k, e) == SubSeq(tr, 1, k - 1) \o <<e, e>> \o SubSeq(tr, k, Len(tr))

(* positions at which site s may be inserted *)
SplitPositions(sites, b, s) ==
  {k \in 1..Len(b) : /\ Y(sites[b[k]]) # Y(sites[s])
                     /\ Covers(sites, b, k, X(sites[s]), Y(sites[s]))}

NewEdge(i, j, ends) == [pair |-> {i, j}, ends |-> ends]

(* the possible <<beach, trace, edges>> after the event of site s *)
SiteResults(sites, b, tr, ed, s) ==
  IF b = <<>> THEN {<< <<s>>, tr, ed >>}
  ELSE IF OnTopRow(sites, b, s)
       THEN {<< Append(b, s), Append(tr, Len(ed) + 1), Append(ed, NewEdge(b[Len(b)], s, {})) >>}
       ELSE {<< Split(b, k, s), SplitTrace(tr, k, Len(ed) + 1), Append(ed, NewEdge(b[k], s, {})) >> :
               k \in SplitPositions(sites, b, s)}

(* the beach lines alone *)
SiteBeaches(sites, b, s) ==
  IF b = <<>> THEN {<<s>>}
  ELSE IF OnTopRow(sites, b, s) THEN {Append(b, s)}
  ELSE {Split(b, k, s) : k \in SplitPositions(sites, b, s)}

SiteEvent(s) ==
  /\ NextSite(S, todo, s)
  /\ NoCircleAbove(S, beach, Y(S[s]))
  /\ \E res \in SiteResults(S, beach, trace, edges, s) :
       beach' = res[1] /\ trace' = res[2] /\ edges' = res[3]
  /\ todo' = todo \ {s}
  /\ line' = Y(S[s])
  /\ UNCHANGED <<S, verts>>

-----------------------------------------------------------------------------
(* circle events *)

Remove(b, k) == SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, Len(b))

Triple(b, k) == <<b[k-1], b[k], b[k+1]>>

(* two edges end at the new vertex v, one starts there *)
EdgesAfter(b, tr, ed, k, v) ==
  Append([i \in 1..Len(ed) |-> IF i = tr[k-1] \/ i = tr[k]
                               THEN [ed[i] EXCEPT !.ends = @ \union {v}] ELSE ed[i]],
         NewEdge(b[k-1], b[k+1], {v}))

TraceAfter(tr, k, e) == SubSeq(tr, 1, k - 2) \o <<e>> \o SubSeq(tr, k + 1, Len(tr))

CircleEvent(k) ==
  /\ k \in Pending(S, beach)
  /\ LET y == Bottom(CircleAt(S, beach, k)) IN
       /\ NoCircleAbove(S, beach, y)
       /\ NoSiteAbove(S, todo, y)
       /\ line' = y
  /\ beach' = Remove(beach, k)
  /\ trace' = TraceAfter(trace, k, Len(edges) + 1)
  /\ edges' = EdgesAfter(beach, trace, edges, k, Len(verts) + 1)
  /\ verts' = Append(verts, Triple(beach, k))
  /\ UNCHANGED <<S, todo>>

Swept == todo = {} /\ Pending(S, beach) = {}

Start(sites) ==
  /\ S = sites
  /\ todo = 1..Len(sites)
  /\ line = BZero
  /\ beach = <<>> /\ trace = <<>> /\ edges = <<>> /\ verts = <<>>

Next == \/ \E s \in todo : SiteEvent(s)
        \/ \E k \in 2..(Len(beach) - 1) : CircleEvent(k)

-----------------------------------------------------------------------------
(* The beach line b is the lower envelope of the parabolas of the sites in   *)
(* h for sweep line l.  Independent of the transitions above:                *)
(*  - breakpoints are ordered and nowhere above the parabola of another site *)
(*  - no narrower parabola dips below an arc between its ends                *)
(*  - the outermost arcs are those of the highest (outermost) sites          *)
BreakOrdered(sites, b, l) ==
  \A k \in 2..(Len(b) - 1) :
     LeqT(BreakX(sites[b[k-1]], sites[b[k]], l), BreakX(sites[b[k]], sites[b[k+1]], l), Tol)

BreakLowest(sites, b, h, l) ==
  \A k \in 1..(Len(b) - 1) :
     LET p == sites[b[k]]  q == sites[b[k+1]] IN
     BreakFinite(p, q, l) =>
       LET z == <<BreakX(p, q, l), BreakY(p, q, l)>>
           d == BSub(Y(z), l)
       IN \A t \in h : BLeq(BSq(BSub(d, Tol)), Dist2(z, sites[t])) \/ BLeq(d, Tol)

NoArcMissing(sites, b, h, l) ==
  \A k \in 1..Len(b) : \A t \in h :
     (BLt(Y(sites[t]), Y(sites[b[k]])) /\ t # b[k]) =>
       \/ k > 1 /\ LeqT(X(sites[t]), BreakX(sites[b[k-1]], sites[b[k]], l), Tol)
       \/ k < Len(b) /\ LeqT(BreakX(sites[b[k]], sites[b[k+1]], l), X(sites[t]), Tol)

OuterArcs(sites, b, h) ==
  \A t \in h : /\ ~BLt(Y(sites[b[1]]), Y(sites[t]))
               /\ ~BLt(Y(sites[b[Len(b)]]), Y(sites[t]))
               /\ Y(sites[b[1]]) = Y(sites[t]) => BLeq(X(sites[b[1]]), X(sites[t]))
               /\ Y(sites[b[Len(b)]]) = Y(sites[t]) => BLeq(X(sites[t]), X(sites[b[Len(b)]]))

LowerEnvelope(sites, b, h, l) ==
  b # <<>> =>
    /\ \A k \in 1..(Len(b) - 1) : b[k] # b[k+1]
    /\ BreakOrdered(sites, b, l)
    /\ BreakLowest(sites, b, h, l)
    /\ NoArcMissing(sites, b, h, l)
    /\ OuterArcs(sites, b, h)

Handled == (1..Len(S)) \ todo

-----------------------------------------------------------------------------
(* what every reachable state satisfies *)

BeachIsLowerEnvelope == LowerEnvelope(S, beach, Handled, line)

(* a vertex of the diagram is equidistant from its three sites and no site   *)
(* (handled or not) is nearer                                                *)
VerticesAreEmptyCircles ==
  \A v \in 1..Len(verts) :
     LET k == Circle(S[verts[v][1]], S[verts[v][2]], S[verts[v][3]])
     IN \A t \in 1..Len(S) : InCircle(k, S[t]) >= 0

EdgesMatchBeach ==
  /\ beach # <<>> => Len(trace) = Len(beach) - 1
  /\ \A k \in 1..Len(trace) : edges[trace[k]].pair = {beach[k], beach[k+1]}
  /\ beach # <<>> => Len(edges) = Cardinality(Handled) - 1 + Len(verts)
  /\ \A v \in 1..Len(verts) : Cardinality({e \in 1..Len(edges) : v \in edges[e].ends}) = 3
  /\ \A e \in 1..Len(edges) : /\ Cardinality(edges[e].ends) <= 2
                              /\ \A v \in edges[e].ends : \A s \in edges[e].pair :
                                    s \in {verts[v][1], verts[v][2], verts[v][3]}

(* every edge end that is not a vertex is traced by a breakpoint, or (two    *)
(* topmost sites of equal height) open upwards                               *)
TopEdge(e) == \E i, j \in edges[e].pair : i # j /\ Y(S[i]) = Y(S[j])
OpenEndsAreTraced ==
  \A e \in 1..Len(edges) :
     LET n == Cardinality({k \in 1..Len(trace) : trace[k] = e}) + Cardinality(edges[e].ends)
     IN n = 2 \/ (n = 1 /\ TopEdge(e))

(* what holds when the sweep is finished *)
Hull(sites) ==   \* sites on the border of the convex hull
  {i \in 1..Len(sites) :
     \E j \in 1..Len(sites) \ {i} :
        \/ \A t \in 1..Len(sites) : Orient(sites[i], sites[j], sites[t]) >= 0
        \/ \A t \in 1..Len(sites) : Orient(sites[i], sites[j], sites[t]) <= 0}
AllCollinear(sites) == \A k \in 3..Len(sites) : Orient(sites[1], sites[2], sites[k]) = 0
CircleCount(sites) ==
  IF AllCollinear(sites) THEN 0 ELSE 2 * Len(sites) - 2 - Cardinality(Hull(sites))

EmptyTriples ==
  {T \in (1..Len(S)) \X (1..Len(S)) \X (1..Len(S)) :
     /\ T[1] < T[2] /\ T[2] < T[3]
     /\ Orient(S[T[1]], S[T[2]], S[T[3]]) # 0
     /\ LET k == Circle(S[T[1]], S[T[2]], S[T[3]]) IN \A t \in 1..Len(S) : InCircle(k, S[t]) >= 0}

SweptIsComplete ==
  Swept =>
    /\ Len(verts) = CircleCount(S)
    /\ \A T \in EmptyTriples : \E v \in 1..Len(verts) :
         LET k == Circle(S[T[1]], S[T[2]], S[T[3]])
             m == Circle(S[verts[v][1]], S[verts[v][2]], S[verts[v][3]])
         IN SamePoint(Center(k), Center(m), BInt(4))

(* sites are handled exactly once and the line never moves up *)
SweepMovesDown == [][Handled # {} => BLeq(line', BAdd(line, Tie))]_vars
SitesOnce == [][todo' \subseteq todo]_vars
=============================================================================
