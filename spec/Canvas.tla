------------------------------- MODULE Canvas -------------------------------
(* What the visualizer has to draw (property C19).  A diagram is given as a record D:
     sites    positions;  names: texts;  seen: the sites whose event has been handled (all of them when the diagram is finished)
     beach    1 for the sites with an arc on the beach line (an arc that has disappeared may or may not be drawn)
     poly     corners;  offset: space around it;  vertices: positions;  conn: for each vertex its half-edges
     half     half-edges [k, p, a, b, s, t, f]: k 1: starts in a vertex at p (<<>>: nowhere), 2: starts in the breakpoint of sites a, b;
              s its site, t its twin, f: 1 if it is the first edge of its site
     edges    half-edges that stand for the edges;  l: sweep line (rounded);  level: 1 if it is exactly as high as some site;  ev: the three sites of the last circle event (<<>>: site event)
   A command is a record [k, all, sel, l, level, labels, scale, tri, arcs, flags]: see Drawn.  The result is a set of drawables, records with tag;
   positions are records [t, x, y]: t "p" a point, "up" infinitely high, "none" no position, "any" not determined.                   *)
EXTENDS Geom, TLC

Default == {"edges", "vertices", "sites"}

MaxAbs(D) == LET all == {BAbs(X(p)) : p \in {D.poly[i] : i \in DOMAIN D.poly}} \cup {BAbs(Y(p)) : p \in {D.poly[i] : i \in DOMAIN D.poly}}
             IN CHOOSE m \in all : \A n \in all : BLeq(n, m)
Bound(D, c, up) == LET all == {D.poly[i][c] : i \in DOMAIN D.poly}
                   IN CHOOSE m \in all : \A n \in all : IF up THEN BLeq(n, m) ELSE BLeq(m, n)
Window(D, o) ==
             [minx |-> BSub(Bound(D, 1, FALSE), D.offset), maxx |-> BAdd(Bound(D, 1, TRUE), D.offset),
              miny |-> BSub(Bound(D, 2, FALSE), D.offset), maxy |-> BAdd(Bound(D, 2, TRUE), D.offset), far |-> MaxAbs(D),
              level |-> IF o.l = <<>> \/ o.k = "all" THEN D.level ELSE o.level]

Billion == <<1, 0, 0, 10>>
(* a site so little above the sweep line that its curve is not determined by the numbers the program works with *)
Vague(C, p, l) == LET h == BSub(Y(p), l) IN (BSgn(h) # 0 \/ C.level = 0) /\ BLeq(BAbs(h), BAdd(Tie, BDiv(C.far, Billion)))
Above(p, l) == BSgn(BSub(Y(p), l)) > 0

At(x, y) == [t |-> "p", x |-> x, y |-> y, s |-> Tol]
Nowhere == [t |-> "none", x |-> BZero, y |-> BZero, s |-> Tol]
Half2(a, b) == BDiv(BAdd(a, b), BInt(2))

(* slack of a breakpoint's height: it moves fast where the curve is steep *)
Steep(p, x, l) == BAdd(Tol, BDiv(BMul(Tol, BAbs(BSub(x, X(p)))), BSub(Y(p), l)))

BreakAt(D, C, i, j, l) ==
    LET a == D.sites[i] b == D.sites[j] IN
    IF Vague(C, a, l) \/ Vague(C, b, l) THEN [Nowhere EXCEPT !.t = "any"]
    ELSE IF BSgn(BSub(Y(a), Y(b))) = 0 /\ (BLt(X(b), X(a)) \/ ~Above(a, l)) THEN [Nowhere EXCEPT !.t = "up", !.x = Half2(X(a), X(b))]
    ELSE LET x == BreakX(a, b, l) y == BreakY(a, b, l) p == IF Above(a, l) THEN a ELSE b IN [At(x, y) EXCEPT !.s = Steep(p, x, l)]

Origin(D, C, h, l) ==
    LET e == D.half[h] IN
    CASE e.k = 1 -> IF e.p = <<>> THEN Nowhere ELSE At(X(e.p), Y(e.p))
      [] e.k = 2 -> IF l = <<>> THEN Nowhere ELSE BreakAt(D, C, e.a, e.b, l)
      [] OTHER -> Nowhere
Both(D, C, h, l) == <<Origin(D, C, h, l), Origin(D, C, D.half[h].t, l)>>
Mid(e) == IF e[1].t = "p" /\ e[2].t = "p" THEN [At(Half2(e[1].x, e[2].x), Half2(e[1].y, e[2].y)) EXCEPT !.s = BAdd(e[1].s, e[2].s)]
          ELSE IF e[1].t = "any" \/ e[2].t = "any" THEN [Nowhere EXCEPT !.t = "any"]
          ELSE [Nowhere EXCEPT !.t = "up", !.x = Half2(e[1].x, e[2].x)]

Name(D, i) == IF i = 0 THEN "-" ELSE "P" \o D.names[i]
SitePos(D, i) == At(X(D.sites[i]), Y(D.sites[i]))

Item(tag) == [tag |-> tag, n |-> 0, a |-> Nowhere, b |-> Nowhere, s |-> "", r |-> BZero, q |-> <<>>, f |-> 0]
Seg(a, b) == [Item("line") EXCEPT !.a = a, !.b = b]
Mark(n, p) == [Item("mark") EXCEPT !.n = n, !.a = p]
Text(n, s, p) == [Item("text") EXCEPT !.n = n, !.s = s, !.a = p]

Pick(o, n) == IF o.all = 1 THEN 1 .. n ELSE {o.sel[i] : i \in DOMAIN o.sel}
Line(D, o) == IF o.l = <<>> THEN D.l ELSE o.l

EdgesDrawn(D, C, o) ==
    LET l == Line(D, o) IN
    UNION {LET h == D.edges[i] e == Both(D, C, h, l) IN
           IF e[1].t = "none" \/ e[2].t = "none" THEN {}
           ELSE {Seg(e[1], e[2])} \cup
                (IF o.labels = 1 THEN {Text(i, Name(D, D.half[h].s) \o "/" \o Name(D, D.half[D.half[h].t].s), Mid(e))} ELSE {})
           : i \in Pick(o, Len(D.edges))}
BordersDrawn(D, C, o) ==
    LET l == Line(D, o) IN
    UNION {UNION {LET e == Both(D, C, h, l) IN
                  IF e[1].t = "none" \/ e[2].t = "none" \/ D.half[h].s = 0 THEN {}
                  ELSE {[Seg(Mid(e), SitePos(D, D.half[h].s)) EXCEPT !.f = IF D.half[h].f = 1 THEN 1 ELSE 2]}
                  : h \in {D.edges[i], D.half[D.edges[i]].t}}
           : i \in Pick(o, Len(D.edges))}
OutgoingDrawn(D, C, o) ==
    UNION {UNION {LET e == Both(D, C, h, <<>>) IN
                  IF e[1].t # "p" \/ e[2].t # "p" \/ (e[1].x = e[2].x /\ e[1].y = e[2].y) THEN {}
                  ELSE LET dx == BSub(e[2].x, e[1].x) dy == BSub(e[2].y, e[1].y) n == BSqrt(BAdd(BSq(dx), BSq(dy)))
                       IN IF BLeq(n, Tie) THEN {[Item("vague") EXCEPT !.tag = "vague"]}
                          ELSE {[Item("arrow") EXCEPT !.a = e[1], !.b = At(BAdd(e[1].x, BDiv(BMul(dx, o.scale), n)), BAdd(e[1].y, BDiv(BMul(dy, o.scale), n)))]}
                  : h \in {D.conn[v][i] : i \in DOMAIN D.conn[v]}}
           : v \in Pick(o, Len(D.vertices))}
SitesDrawn(D, o, more) ==
    UNION {{Mark(i + more, SitePos(D, i))} \cup (IF o.labels = 1 THEN {Text(i, Name(D, i), SitePos(D, i))} ELSE {}) : i \in Pick(o, Len(D.sites))}
EventDrawn(D, o) ==
    IF D.ev = <<>> THEN {}
    ELSE LET c == Circle(D.sites[D.ev[1]], D.sites[D.ev[2]], D.sites[D.ev[3]]) m == Center(c)
         IN {[Item("circle") EXCEPT !.a = At(X(m), Y(m)), !.r = Radius(c)]} \cup
            {Mark(1000 + D.ev[i], SitePos(D, D.ev[i])) : i \in 1 .. 3} \cup
            (IF o.tri = 1 THEN {[Item("poly") EXCEPT !.q = [i \in 1 .. 3 |-> D.sites[D.ev[i]]], !.n = 1]} ELSE {})
(* the arcs of sites o.sel, or of all seen ones *)
ArcsDrawn(D, C, o) ==
    LET l == Line(D, o)
        S == IF o.all = 1 THEN {i \in DOMAIN D.sites : D.seen[i] = 1} ELSE {o.sel[i] : i \in DOMAIN o.sel}
        U == {i \in S : Above(D.sites[i], l)}
    IN IF \E i \in S : Vague(C, D.sites[i], l) THEN {Item("vague")}
       ELSE (IF U # {} THEN {[Item("beach") EXCEPT !.q = U, !.r = l, !.f = o.labels]} ELSE {}) \cup
            (IF o.arcs = 1 THEN {[Item("arc") EXCEPT !.n = i, !.r = l, !.f = IF o.all = 0 \/ D.beach[i] = 1 THEN 1 ELSE 0] : i \in U} \cup
                                {[Item("upright") EXCEPT !.r = X(D.sites[i])] : i \in S \ U} ELSE {})
SweepDrawn(D, C, o) == LET l == Line(D, o) IN {Seg(At(C.minx, l), At(C.maxx, l))}
PolygonDrawn(D) == {[Item("poly") EXCEPT !.q = D.poly, !.n = 2]}
VerticesDrawn(D, o) == {Mark(2000 + i, At(X(D.vertices[i]), Y(D.vertices[i]))) : i \in Pick(o, Len(D.vertices))}

(* plot_all is the union of its parts; labels belong to the part they label *)
Plain(o) == [o EXCEPT !.all = 1, !.l = <<>>]
Flag(o, f) == IF \E i \in DOMAIN o.flags : o.flags[i] = f THEN 1 ELSE 0
AllDrawn(D, C, o) ==
    LET p == Plain(o) w == [p EXCEPT !.tri = Flag(o, "triangles"), !.arcs = Flag(o, "arcs")] IN
    (IF Flag(o, "sweep_line") = 1 THEN SweepDrawn(D, C, w) ELSE {}) \cup
    (IF Flag(o, "polygon") = 1 THEN PolygonDrawn(D) ELSE {}) \cup
    (IF Flag(o, "edges") = 1 THEN EdgesDrawn(D, C, [w EXCEPT !.labels = Flag(o, "edge_labels")]) ELSE {}) \cup
    (IF Flag(o, "border_to_site") = 1 THEN BordersDrawn(D, C, w) ELSE {}) \cup
    (IF Flag(o, "vertices") = 1 THEN VerticesDrawn(D, w) ELSE {}) \cup
    (IF Flag(o, "sites") = 1 THEN SitesDrawn(D, [w EXCEPT !.labels = Flag(o, "site_labels")], 0) ELSE {}) \cup
    (IF Flag(o, "outgoing_edges") = 1 THEN OutgoingDrawn(D, C, w) ELSE {}) \cup
    (IF Flag(o, "events") = 1 THEN EventDrawn(D, w) ELSE {}) \cup
    (IF Flag(o, "beach_line") = 1 THEN ArcsDrawn(D, C, [w EXCEPT !.labels = Flag(o, "arc_labels")]) ELSE {})

Drawn(D, C, o) == CASE o.k = "sweep" -> SweepDrawn(D, C, o)
                    [] o.k = "polygon" -> PolygonDrawn(D)
                    [] o.k = "vertices" -> VerticesDrawn(D, o)
                    [] o.k = "sites" -> SitesDrawn(D, o, 0)
                    [] o.k = "edges" -> EdgesDrawn(D, C, o)
                    [] o.k = "border" -> BordersDrawn(D, C, o)
                    [] o.k = "outgoing" -> OutgoingDrawn(D, C, o)
                    [] o.k = "event" -> EventDrawn(D, o)
                    [] o.k = "arcs" -> ArcsDrawn(D, C, o)
                    [] o.k = "all" -> AllDrawn(D, C, o)

-----------------------------------------------------------------------------
(* what was found on the canvas: records [tag, p, s, r, c] with p a sequence of points <<x, y>> (a coordinate that is not finite is <<>>) *)
Near(a, b, slack) == a # <<>> /\ BNear(a, b, BAdd(slack, BDiv(BAbs(b), Billion)))
Meets(C, g, e) == CASE e.t = "p" -> Near(g[1], e.x, e.s) /\ Near(g[2], e.y, e.s)
                    [] e.t = "up" -> Near(g[1], e.x, e.s) /\ (IF g[2] = <<>> THEN TRUE ELSE BLeq(BSub(C.maxy, Tol), g[2]))
                    [] OTHER -> TRUE
(* the midpoint of an edge whose end is infinitely high lies anywhere straight above *)
MeetsHigh(C, g, e) == IF e.t = "up" THEN Near(g[1], e.x, e.s) ELSE Meets(C, g, e)
RECURSIVE SameCycle(_, _, _)
SameCycle(p, q, k) == IF k = Len(q) THEN FALSE
                      ELSE \/ \A i \in DOMAIN q : SamePoint(p[i], q[((i + k - 1) % Len(q)) + 1], Tol)
                           \/ \A i \in DOMAIN q : SamePoint(p[i], q[((k - i + 2 * Len(q)) % Len(q)) + 1], Tol)
                           \/ SameCycle(p, q, k + 1)
Closed(p) == IF Len(p) > 1 /\ p[Len(p)] = p[1] THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Relative(r) == BAdd(Tol, BDiv(BAbs(r), <<1, 0, 100>>))

(* slack of a curve evaluated with floats *)
Float15 == <<1, 0, 0, 0, 1000>>
CurveTol(C, p, l, y) == LET h == BSub(Y(p), l) far == BAdd(C.far, BAbs(l)) IN BAdd(Tol, BDiv(BMul(BMul(far, BInt(8)), BAdd(far, BAbs(BSub(y, l)))), BMul(h, Float15)))
OnArc(D, C, i, l, g) == LET y == ParaY(D.sites[i], g[1], l) IN g[2] # <<>> /\ BNear(g[2], y, BAdd(CurveTol(C, D.sites[i], l, y), BDiv(BAbs(y), Billion)))
LowestAt(D, C, U, l, g) == /\ \E i \in U : OnArc(D, C, i, l, g)
                           /\ \A i \in U : LET y == ParaY(D.sites[i], g[1], l) IN BLeq(g[2], BAdd(y, BAdd(CurveTol(C, D.sites[i], l, y), BDiv(BAbs(y), Billion))))
Spans(C, p) == Near(p[1][1], C.minx, Tol) /\ Near(p[Len(p)][1], C.maxx, Tol)

Matches(D, C, g, d) ==
    CASE d.tag = "line" -> g.tag = "line" /\ (IF d.f # 0 THEN (MeetsHigh(C, g.p[1], d.a) /\ Meets(C, g.p[2], d.b)) \/ (MeetsHigh(C, g.p[2], d.a) /\ Meets(C, g.p[1], d.b))
                                              ELSE (Meets(C, g.p[1], d.a) /\ Meets(C, g.p[2], d.b)) \/ (Meets(C, g.p[2], d.a) /\ Meets(C, g.p[1], d.b)))
      [] d.tag = "mark" -> g.tag = "mark" /\ Meets(C, g.p[1], d.a)
      [] d.tag = "text" -> g.tag = "text" /\ g.s = d.s /\ MeetsHigh(C, g.p[1], d.a)
      [] d.tag = "arrow" -> g.tag = "arrow" /\ Meets(C, g.p[1], d.a) /\ Meets(C, g.p[2], d.b)
      [] d.tag = "circle" -> g.tag = "circle" /\ BNear(g.r, d.r, Relative(d.r)) /\ BNear(g.p[1][1], d.a.x, Relative(d.r)) /\ BNear(g.p[1][2], d.a.y, Relative(d.r))
      [] d.tag = "poly" -> g.tag = "poly" /\ LET p == Closed(g.p) IN Len(p) = Len(d.q) /\ SameCycle(p, d.q, 0)
      [] d.tag = "beach" -> g.tag = "curve" /\ Spans(C, g.p) /\ \A i \in DOMAIN g.p : LowestAt(D, C, d.q, d.r, g.p[i])
      [] d.tag = "arc" -> g.tag = "curve" /\ Spans(C, g.p) /\ \A i \in DOMAIN g.p : OnArc(D, C, d.n, d.r, g.p[i])
      [] d.tag = "upright" -> g.tag = "upright" /\ Near(g.p[1][1], d.r, Tol)
      [] OTHER -> FALSE

(* labels of arcs: on the curve of the site they name, and there is one for each arc that is seen below the upper end of the canvas *)
ArcLabel(D, C, g, d) == /\ d.tag = "beach" /\ d.f = 1 /\ g.tag = "text"
                        /\ \E i \in d.q : D.names[i] = g.s /\ OnArc(D, C, i, d.r, g.p[1])
ClearlyLowest(D, C, U, l, x, i) ==
    LET yi == ParaY(D.sites[i], x, l) IN
    /\ BLt(BAdd(yi, CurveTol(C, D.sites[i], l, yi)), BSub(C.maxy, Tol))
    /\ \A j \in U \ {i} : LET y == ParaY(D.sites[j], x, l) IN BLt(BAdd(yi, BAdd(CurveTol(C, D.sites[i], l, yi), CurveTol(C, D.sites[j], l, y))), y)
Unlabelled(D, C, G, d) ==
    IF d.tag # "beach" \/ d.f # 1 THEN {}
    ELSE LET curves == {g \in G : Matches(D, C, g, d)} IN
         {i \in d.q : /\ \E g \in curves : \E k \in DOMAIN g.p : ClearlyLowest(D, C, d.q, d.r, g.p[k][1], i)
                      /\ ~\E g \in G : g.tag = "text" /\ g.s = D.names[i]}

Count(S, t) == Cardinality({d \in S : d.tag = t})
Failures(D, C, W, gots) ==
    IF \E d \in W : d.tag = "vague" \/ (d.tag \in {"line", "text"} /\ (d.a.t = "any" \/ d.b.t = "any")) THEN {}
    ELSE LET G == {gots[i] : i \in DOMAIN gots}
             many(t) == Cardinality({i \in DOMAIN gots : gots[i].tag = t})
             arclabels == {g \in G : \E d \in W : ArcLabel(D, C, g, d)}
             firsts == {d \in W : d.tag = "line" /\ d.f = 1}
             seconds == {d \in W : d.tag = "line" /\ d.f = 2}
             other == {g.c : g \in {g \in G : g.tag = "line" /\ (\E d \in seconds : Matches(D, C, g, d)) /\ ~\E d \in W \ seconds : Matches(D, C, g, d)}}
         IN {<<"missing", d.tag>> : d \in {d \in W : ~(d.tag = "arc" /\ d.f = 0) /\ ~\E g \in G : Matches(D, C, g, d)}} \cup
            {<<"extra", g.tag>> : g \in {g \in G : g \notin arclabels /\ ~\E d \in W : Matches(D, C, g, d)}} \cup
            {<<"count", t>> : t \in {t \in {"mark", "circle", "poly"} : many(t) # Count(W, t)}} \cup
            {<<"unlabelled", "arc">> : i \in UNION {Unlabelled(D, C, G, d) : d \in W}} \cup
            {<<"colour", "first">> : d \in {d \in firsts : ~\E g \in G : Matches(D, C, g, d) /\ g.c \notin other}}
=============================================================================
