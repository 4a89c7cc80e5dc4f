----------------------------- MODULE CurvesTrace -----------------------------
(* Checks recorded breakpoints and arcs against Curves.  A run is a pair of sites a, b and a sweep line that moves down: lines is a sequence of
   records [l, ab, ba, top, arcs] with the breakpoints (a, b) and (b, a) as found, and for both sites the curve: <<>> if the program says there
   is none, else points <<x, y>>; does: the answers of does_intersect for (a, b) and (b, a); far: size of the coordinates.             *)
EXTENDS Curves, TLC, Json, IOUtils

VARIABLES run, n
vars == <<run, n>>
Data == JsonDeserialize(IOEnv.TRACE)
R == Data.runs[run]
Float15 == <<1, 0, 0, 0, 1000>>
(* slack of an arc evaluated with floats, at height y *)
ArcTol(p, l, y) == BAdd(SteepTol(p, X(p), l), BAdd(BDiv(BMul(BMul(R.far, BInt(8)), BAdd(R.far, BAbs(BSub(y, l)))), BMul(BSub(Y(p), l), Float15)), BDiv(BAbs(y), <<1, 0, 0, 10>>)))

Failures(c) ==
    Misplaced(R.a, R.b, c.l, c.ab, c.ba[1], c.top) \cup Misplaced(R.b, R.a, c.l, c.ba, c.ab[1], c.top) \cup
    UNION {LET p == IF i = 1 THEN R.a ELSE R.b g == c.arcs[i] IN
           IF OnIt(p, c.l) THEN (IF g = <<>> THEN {} ELSE {"noarc"})
           ELSE IF g = <<>> THEN {"arc"}
           ELSE IF \A k \in DOMAIN g : g[k][2] # <<>> /\ BNear(g[k][2], ParaY(p, g[k][1], c.l), ArcTol(p, c.l, g[k][2])) THEN {} ELSE {"arc"}
           : i \in 1 .. 2}

Init == run \in DOMAIN Data.runs /\ n = 0
Start == /\ n = 0
         /\ (IF R.does[1] = (IF Exists(R.a, R.b) THEN 1 ELSE 0) /\ R.does[2] = (IF Exists(R.b, R.a) THEN 1 ELSE 0) THEN TRUE ELSE PrintT(<<"FAIL", run, "C21.exists", 0>>))
         /\ n' = 1 /\ UNCHANGED run
Check == /\ n > 0 /\ n <= Len(R.lines)
         /\ \A f \in Failures(R.lines[n]) : PrintT(<<"FAIL", run, "C21." \o f, n>>)
         /\ n' = n + 1 /\ UNCHANGED run
Done == n = Len(R.lines) + 1 /\ PrintT(<<"DONE", run>>) /\ n' = n + 1 /\ UNCHANGED run
Spec == Init /\ [][Start \/ Check \/ Done]_vars
=============================================================================
