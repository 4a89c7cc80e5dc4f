---------------------------- MODULE FortuneTrace -----------------------------
(* Checks recorded sweeps of the implementation against Fortune.  Every      *)
(* recorded step (the state after one handled event) is compared with what   *)
(* the actions of Fortune allow in the state before it; each clause that     *)
(* fails is reported.  After a failure the recorded state is adopted, so     *)
(* that every step of every run gets a verdict.                              *)
EXTENDS Fortune, AvlTree, TLC, Json, IOUtils

VARIABLES
  run,    \* number of the run
  i,      \* steps checked so far
  circles,\* circle events so far
  cur,    \* recorded edges (as of the last step)
  synced  \* the edge list of the specification still corresponds to the recorded one

tvars == <<vars, run, i, circles, cur, synced>>

Data == JsonDeserialize(IOEnv.TRACE)
Range(s) == {s[k] : k \in 1..Len(s)}
Want == Range(Data.want)
Wants(c) == c \in Want

R == Data.runs[run]
P == R.sites                      \* sequence of sites
Step == R.steps[i + 1]

Init == /\ run \in 1..Len(Data.runs)
        /\ i = 0 /\ circles = 0 /\ cur = <<>> /\ synced = TRUE
        /\ S = <<>> /\ todo = 1..Len(P) /\ line = BZero
        /\ beach = <<>> /\ trace = <<>> /\ edges = <<>> /\ verts = <<>>

If(ok, c) == IF ok THEN {} ELSE {c}

-----------------------------------------------------------------------------
LineFailures(r) ==
  If(r.line = r.y, "C05.line") \union
  If(i > 0 => BLeq(r.line, BAdd(line, Tie)), "C05.up")

NewBeachOk(b) == Range(b) \subseteq 1..Len(P)

(* the queue after the step: pend = triples of valid circle events *)
PendTriples(b) == {Range(Triple(b, k)) : k \in Pending(P, b)}
Consecutive(b, t) == \E k \in 2..(Len(b) - 1) : Range(Triple(b, k)) = Range(t)
(* a converging arc whose circle is empty will vanish there.  Arcs that      *)
(* vanish in the same point may share one event.                             *)
Vanishes(b, k) == LET c == CircleAt(P, b, k) IN \A t \in 1..Len(P) : InCircle(c, P[t]) >= 0
SameCircle(b, k, t) ==
  /\ Len(t) = 3 /\ Range(t) \subseteq 1..Len(P)
  /\ Orient(P[t[1]], P[t[2]], P[t[3]]) # 0
  /\ LET c == CircleAt(P, b, k) IN \A n \in 1..3 : InCircle(c, P[t[n]]) = 0
QueueFailures(r) ==
  IF ~NewBeachOk(r.beach) THEN {}
  ELSE If(\A n \in 1..Len(r.pend) : Consecutive(r.beach, r.pend[n]), "C07.stale") \union
       If(\A k \in Pending(P, r.beach) : Vanishes(r.beach, k) =>
            \E n \in 1..Len(r.pend) : Range(r.pend[n]) = Range(Triple(r.beach, k)) \/ SameCircle(r.beach, k, r.pend[n]), "C07.missed") \union
       If({Range(r.pend[n]) : n \in 1..Len(r.pend)} \subseteq PendTriples(r.beach), "C07.false")

EnvelopeFailures(r, h) ==
  IF ~NewBeachOk(r.beach) \/ r.beach = <<>> THEN {"C06.arcs"}
  ELSE If(LowerEnvelope(P, r.beach, h, r.line), "C06.envelope")

-----------------------------------------------------------------------------
SiteOk(r) == r.s \in 1..Len(P)

Results(s) == SiteResults(P, beach, trace, edges, s)
Matching(r) == {res \in Results(r.s) : res[1] = r.beach}

SiteFailures(r) ==
  IF ~SiteOk(r) THEN {"C05.once", "C06.arcs", "C09.arcs", "C14.sites"}
  ELSE
    (IF Wants("C05") THEN
       If(r.s \in todo, "C05.once") \union
       If(r.s \in todo => NextSite(P, todo, r.s), "C05.order") \union
       If(r.y = Y(P[r.s]), "C05.position") \union
       If(r.name = Len(P) - Cardinality(todo), "C05.name") \union
       If(NewBeachOk(beach) => NoCircleAbove(P, beach, Y(P[r.s])), "C05.circlefirst") \union
       LineFailures(r)
     ELSE {}) \union
    (IF Wants("C06") THEN
       If(r.s \in todo => r.beach \in SiteBeaches(P, beach, r.s), "C06.insert") \union
       EnvelopeFailures(r, ((1..Len(P)) \ todo) \union {r.s})
     ELSE {}) \union
    (IF Wants("C07") THEN QueueFailures(r) \union If(r.nv = 0, "C07.vertex") ELSE {})

-----------------------------------------------------------------------------
(* positions whose circle event this step may be *)
Positions(r) == {k \in 2..(Len(beach) - 1) : Range(Triple(beach, k)) = Range(r.tri)}
Enabled(r) == {k \in Positions(r) : Converges(P, beach, k)}
TriOk(r) == Len(r.tri) = 3 /\ Range(r.tri) \subseteq 1..Len(P) /\ Cardinality(Range(r.tri)) = 3

CircleFailures(r) ==
  IF ~TriOk(r) \/ ~NewBeachOk(beach) THEN {"C05.event", "C06.arcs", "C07.triple", "C09.arcs"}
  ELSE
    LET flat == Orient(P[r.tri[1]], P[r.tri[2]], P[r.tri[3]]) = 0
        c == IF flat THEN [o |-> P[r.tri[1]], g |-> BOne, u |-> BZero, v |-> BZero] ELSE Circle(P[r.tri[1]], P[r.tri[2]], P[r.tri[3]])
    IN
    (IF Wants("C05") THEN
       If(NoCircleAbove(P, beach, r.y), "C05.circleorder") \union
       If(NoSiteAbove(P, todo, r.y), "C05.sitefirst") \union
       LineFailures(r)
     ELSE {}) \union
    (IF Wants("C06") THEN
       If(\E k \in Positions(r) : r.beach = Remove(beach, k), "C06.remove") \union
       EnvelopeFailures(r, (1..Len(P)) \ todo)
     ELSE {}) \union
    (IF Wants("C07") THEN
       If(Enabled(r) # {}, "C07.enabled") \union
       If(~flat /\ BNear(r.y, Bottom(c), BAdd(Tie, FarTol(c))), "C07.bottom") \union
       If(~flat /\ Len(r.c) = 2 /\ SamePoint(r.c, Center(c), BAdd(Tol, FarTol(c))) /\ BNear(r.rad, Radius(c), BAdd(Tol, FarTol(c))), "C07.center") \union
       If(~flat /\ \A t \in 1..Len(P) : InCircle(c, P[t]) >= 0 \/ BLeq(Radius(c), BAdd(Dist(Center(c), P[t]), Flat)), "C07.empty") \union
       If(r.nv = 1 /\ Len(r.vc) = 2 /\ SamePoint(r.vc, Center(c), BAdd(Tol, FarTol(c))), "C07.vertex") \union
       QueueFailures(r)
     ELSE {})

-----------------------------------------------------------------------------
(* the edge list: edges of the specification and of the implementation have  *)
(* the same numbers, as both are numbered in order of creation               *)

(* the recorded edges after step r *)
CurAfter(r) ==
  LET n == Len(cur) + r.ne
      old(e) == IF e <= Len(cur) THEN cur[e] ELSE [s |-> <<-1, -1>>, o |-> <<[v |-> -1, bp |-> <<>>], [v |-> -1, bp |-> <<>>]>>, tw |-> 0]
  IN [e \in 1..n |-> IF \E d \in 1..Len(r.ed) : r.ed[d].i = e
                     THEN r.ed[CHOOSE d \in 1..Len(r.ed) : r.ed[d].i = e].e ELSE old(e)]

(* <<trace, edges>> of the specification after step r, {} if r is no step of it *)
SpecAfter(r) ==
  IF r.k = "s"
  THEN IF ~SiteOk(r) THEN {} ELSE {<<res[2], res[3], verts>> : res \in Matching(r)}
  ELSE IF ~TriOk(r) THEN {}
  ELSE {<<TraceAfter(trace, k, Len(edges) + 1), EdgesAfter(beach, trace, edges, k, Len(verts) + 1),
          Append(verts, Triple(beach, k))>> : k \in {k \in Positions(r) : Remove(beach, k) = r.beach}}

(* the end of a recorded edge is one the specification knows *)
TracedBy(tr, b, e) == {k \in 1..Len(tr) : tr[k] = e}
EndsMatch(tr, b, ed, e, o, s) ==
  LET open == TracedBy(tr, b, e)
      vs == ed[e].ends
      inV == {n \in {1, 2} : o[n].v # 0}
      inB == {1, 2} \ inV
  IN /\ {o[n].v : n \in inV} = vs /\ Cardinality(inV) = Cardinality(vs)
     \* every tracing breakpoint is the origin of a half-edge of the cell on its right
     /\ \A k \in open : \E n \in inB : o[n].bp = <<b[k], b[k+1]>> /\ s[n] = b[k+1]
     /\ \A n \in inB : Range(o[n].bp) = ed[e].pair

EdgeFailures(r, sp) ==
  LET c == CurAfter(r)
      tr == sp[1]  ed == sp[2] IN
  IF Len(c) # Len(ed) \/ r.nall[2] # Len(ed) THEN {"C09.count"}
  ELSE If(\A e \in 1..Len(ed) : Range(c[e].s) = ed[e].pair /\ Len(c[e].s) = 2, "C09.sites") \union
       If(\A e \in 1..Len(ed) : c[e].tw = 1, "C09.twin") \union
       If(\A e \in 1..Len(ed) : EndsMatch(tr, r.beach, ed, e, c[e].o, c[e].s), "C09.ends") \union
       If(r.nall[1] = Len(sp[3]), "C09.vertices")

(* the half-edges around a vertex that belongs to three sites *)
StarOk(ln, three) ==
  /\ Len(ln) = 3
  /\ {ln[n].s : n \in 1..3} = three /\ {ln[n].ts : n \in 1..3} = three
  /\ \A n \in 1..3 : /\ ln[n].o = 1 /\ ln[n].pv = 1 /\ ln[n].s # ln[n].ts
                     /\ \E m \in 1..3 : ln[m].h = ln[n].n /\ ln[m].s = ln[n].ts

PartialFailures(r) ==
  IF ~synced THEN {}
  ELSE LET sps == SpecAfter(r) IN
       IF sps = {} THEN {"C09.step"}
       ELSE LET sp == CHOOSE sp \in sps : TRUE IN
            EdgeFailures(r, sp) \union
            If(r.k = "c" => StarOk(r.ln, Range(sp[3][Len(sp[3])])), "C09.star") \union
            If(r.nv = (IF r.k = "c" THEN 1 ELSE 0), "C09.newvertex")

-----------------------------------------------------------------------------
StepFailures(r) ==
  (IF r.k = "s" THEN SiteFailures(r) ELSE CircleFailures(r)) \union
  (IF Wants("C08") THEN StatusTreeFailures(r.tree, r.beach) \union
                        If(r.beach # <<>> /\ NewBeachOk(r.beach) => BreakOrdered(P, r.beach, r.line), "C08.order") ELSE {}) \union
  (IF Wants("C09") THEN PartialFailures(r) ELSE {})

Relevant(fs) == {f \in fs : \E c \in Want : SubSeq(f, 1, 3) = c}

CheckStep ==
  /\ i < Len(R.steps)
  /\ LET r == Step IN
     /\ \A f \in Relevant(StepFailures(r)) : PrintT(<<"FAIL", run, f, i + 1>>)
     /\ line' = r.line
     /\ todo' = IF r.k = "s" THEN todo \ {r.s} ELSE todo
     /\ circles' = circles + IF r.k = "c" THEN 1 ELSE 0
     /\ beach' = r.beach
     /\ IF Wants("C09")
        THEN LET sps == IF synced THEN SpecAfter(r) ELSE {} IN
             IF sps # {} THEN LET sp == CHOOSE sp \in sps : TRUE IN
                                trace' = sp[1] /\ edges' = sp[2] /\ verts' = sp[3] /\ synced' = TRUE /\ cur' = CurAfter(r)
             ELSE synced' = FALSE /\ UNCHANGED <<trace, edges, verts, cur>>
        ELSE UNCHANGED <<trace, edges, verts, cur, synced>>
  /\ i' = i + 1
  /\ UNCHANGED <<run, S>>

-----------------------------------------------------------------------------
(* the end of the sweep *)
Rank(s) == Cardinality({t \in 1..Len(P) : t # s /\ Above(P[t], P[s])})

EndFailures ==
  (IF Wants("C05") THEN
     If(todo = {}, "C05.all") \union
     If(\A s \in 1..Len(P) : R.names[s] = Rank(s), "C05.rank")
   ELSE {}) \union
  (IF Wants("C07") THEN
     If(R.left = 0, "C07.left") \union
     If(NewBeachOk(beach) => Pending(P, beach) = {}, "C07.unhandled") \union
     If(circles = CircleCount(P), "C07.number")
   ELSE {}) \union
  (IF Wants("C09") THEN
     If(synced => (Len(R.ln) = Len(verts) /\ \A v \in 1..Len(verts) : StarOk(R.ln[v], Range(verts[v]))), "C09.stars")
   ELSE {}) \union
  (IF Wants("C14") THEN
     If(Len(R.steps) - circles = Len(P) /\ todo = {}, "C14.sites") \union
     If(circles = CircleCount(P), "C14.circles")
   ELSE {})

CheckEnd ==
  /\ i = Len(R.steps)
  /\ \A f \in Relevant(EndFailures) : PrintT(<<"FAIL", run, f, i>>)
  /\ PrintT(<<"DONE", run>>)
  /\ i' = i + 1
  /\ UNCHANGED <<vars, run, circles, cur, synced>>

Spec == Init /\ [][CheckStep \/ CheckEnd]_tvars
=============================================================================
