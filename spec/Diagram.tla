------------------------------ MODULE Diagram --------------------------------
(* What a finished diagram has to be.  A diagram D is a record               *)
(*   sites  sequence of points                                               *)
(*   poly   the corners of the polygon, clockwise                            *)
(*   rz     1 if zero-length edges are removed                               *)
(*   E      the number of edges; the half-edges of edge e are 2e-1 and 2e    *)
(*   H      half-edges [o, g: origin and target vertex, t: twin,             *)
(*          n, p: next and previous half-edge, s: site of the cell]          *)
(*          with 0 for "none" and -1 for "not part of the diagram"           *)
(*   V      vertices [p: point, ce: connected half-edges, c: number of the   *)
(*          position (equal positions have equal numbers)]                   *)
(*   cells  for each site [b: borders, v: corner points, vv: corner          *)
(*          vertices, f: first half-edge, a, ar: area, ok: area is finite]   *)
(* Every operator below is total: it has a value for any such record.        *)
EXTENDS Geom, TLC

(* vertices are exact up to the rounding of the implementation *)
VTol == Tol

Halves(D) == 1..Len(D.H)
Sites(D) == 1..Len(D.sites)
IsHalf(D, h) == h \in Halves(D)
IsVertex(D, v) == v \in 1..Len(D.V)
Origin(D, h) == D.H[h].o
CellHalves(D, i) == {h \in Halves(D) : D.H[h].s = i}
Finite(D) == \A v \in 1..Len(D.V) : Len(D.V[v].p) = 2

-----------------------------------------------------------------------------
(* C02: the half-edge structure *)

TwinOk(D) ==
  /\ Len(D.H) = 2 * D.E
  /\ \A h \in Halves(D) :
       LET t == D.H[h].t IN IsHalf(D, t) /\ t # h /\ D.H[t].t = h /\ (h + 1) \div 2 = (t + 1) \div 2

(* the target of a half-edge is the origin of its twin, whenever somebody has asked for it *)
TargetsOk(D) ==
  \A h \in Halves(D) : D.H[h].g = IF IsHalf(D, D.H[h].t) THEN D.H[D.H[h].t].o ELSE -1

EndsOk(D) ==
  /\ TargetsOk(D)
  /\ \A h \in Halves(D) :
    /\ IsVertex(D, D.H[h].o)
    /\ D.rz = 1 => D.H[h].o # D.H[h].g

OwnersOk(D) ==
  \A h \in Halves(D) : /\ D.H[h].s \in 0..Len(D.sites)
                       /\ IsHalf(D, D.H[h].t) => D.H[h].s # D.H[D.H[h].t].s

LinksOk(D) ==
  \A h \in Halves(D) :
    D.H[h].s # 0 =>
      /\ IsHalf(D, D.H[h].n) /\ D.H[D.H[h].n].p = h
      /\ IsHalf(D, D.H[h].p) /\ D.H[D.H[h].p].n = h

NextStartsAtEnd(D) ==
  \A h \in Halves(D) :
    (D.H[h].s # 0 /\ IsHalf(D, D.H[h].n) /\ IsHalf(D, D.H[h].t)) =>
      D.H[D.H[h].n].o = D.H[D.H[h].t].o

NextInCell(D) ==
  \A h \in Halves(D) : (D.H[h].s # 0 /\ IsHalf(D, D.H[h].n)) => D.H[D.H[h].n].s = D.H[h].s

RECURSIVE Walk(_, _, _)
Walk(D, start, seq) ==
  LET n == D.H[seq[Len(seq)]].n
  IN IF n = start \/ ~IsHalf(D, n) \/ Len(seq) > Len(D.H) THEN seq ELSE Walk(D, start, Append(seq, n))
Loop(D, f) == IF IsHalf(D, f) THEN Walk(D, f, <<f>>) ELSE <<>>
Range(s) == {s[i] : i \in 1..Len(s)}

LoopOk(D) ==
  \A i \in Sites(D) :
    LET f == D.cells[i].f
        w == Loop(D, f)
    IN IF D.E = 0 THEN FALSE
       ELSE /\ Range(w) = CellHalves(D, i)
            /\ Len(w) = Cardinality(Range(w))
            /\ w # <<>> => D.H[w[Len(w)]].n = f

-----------------------------------------------------------------------------
(* C01: the cells *)

CellPoints(D, i) == D.cells[i].v
CellFinite(D, i) == Len(CellPoints(D, i)) >= 3 /\ \A k \in 1..Len(CellPoints(D, i)) : Len(CellPoints(D, i)[k]) = 2

CellsFinite(D) == \A i \in Sites(D) : CellFinite(D, i)

CellInPolygon(D) ==
  \A i \in Sites(D) : CellFinite(D, i) => \A k \in 1..Len(CellPoints(D, i)) : InsideT(D.poly, CellPoints(D, i)[k], VTol)

CellNearest(D) ==
  \A i \in Sites(D) : CellFinite(D, i) =>
    \A k \in 1..Len(CellPoints(D, i)) : \A j \in Sites(D) \ {i} :
       NearerT(CellPoints(D, i)[k], D.sites[i], D.sites[j], VTol)

(* the corners go round the cell once, without reflex corners *)
TurnSum(P) == Area2(P)
ConvexIn(P, dir) ==
  \A k \in 1..Len(P) : \A j \in 1..Len(P) :
    LET a == P[k]  b == Corner(P, k + 1)
        o == OrientB(a, b, P[j])
    IN BLeq(IF dir > 0 THEN BNeg(o) ELSE o, BMul(VTol, Dist(a, b)))
CellInOrder(D) ==
  \A i \in Sites(D) : CellFinite(D, i) => ConvexIn(CellPoints(D, i), BSgn(Area2(CellPoints(D, i))))

(* consecutive corners differ *)
CellCornersDiffer(D) ==
  D.rz = 1 => \A i \in Sites(D) : CellFinite(D, i) =>
    \A k, j \in 1..Len(CellPoints(D, i)) : k < j => CellPoints(D, i)[k] # CellPoints(D, i)[j]

RECURSIVE AreaSum(_, _)
AreaSum(D, i) == IF i > Len(D.sites) THEN BZero ELSE BAdd(BAbs(Area2(CellPoints(D, i))), AreaSum(D, i + 1))

Extent(D) ==
  LET xs == {X(D.poly[i]) : i \in 1..Len(D.poly)}  ys == {Y(D.poly[i]) : i \in 1..Len(D.poly)}
      Max(A) == CHOOSE a \in A : \A b \in A : BLeq(b, a)
      Min(A) == CHOOSE a \in A : \A b \in A : BLeq(a, b)
  IN BMax(BSub(Max(xs), Min(xs)), BSub(Max(ys), Min(ys)))

(* nothing is left out and nothing counted twice: as every cell lies in the  *)
(* region of its site, this makes the cells equal to the regions             *)
CellsTile(D) ==
  CellsFinite(D) => BNear(AreaSum(D, 1), BAbs(Area2(D.poly)), BMul(BInt(4 * Len(D.sites)), BMul(VTol, Extent(D))))

-----------------------------------------------------------------------------
(* C03: the vertices *)

NearestTo(D, z) ==
  LET d == CHOOSE d \in {Dist2(z, D.sites[j]) : j \in Sites(D)} : \A j \in Sites(D) : BLeq(d, Dist2(z, D.sites[j]))
      r == BAdd(BSqrt(d), VTol)
  IN {j \in Sites(D) : BLeq(BSqrt(Dist2(z, D.sites[j])), r)}

(* positions that differ only by rounding are the same, except where more than three sites lie almost, but not exactly, on an empty circle *)
Rounding == <<1, 0, 100>>           \* 10^6 units, at most 10^-14 of the extent
AlmostCocircular(D, z) ==
  LET T == NearestTo(D, z) IN
  /\ Cardinality(T) > 3
  /\ \E i, j, k \in T : /\ Orient(D.sites[i], D.sites[j], D.sites[k]) > 0
                       /\ LET c == Circle(D.sites[i], D.sites[j], D.sites[k]) IN \E m \in T : InCircle(c, D.sites[m]) # 0
Apart(D) == \A v \in 1..Len(D.V) : \A w \in 1..(v - 1) :
  /\ D.V[v].c # D.V[w].c
  /\ Len(D.V[v].p) = 2 /\ Len(D.V[w].p) = 2 => ~SamePoint(D.V[v].p, D.V[w].p, Rounding) \/ AlmostCocircular(D, D.V[v].p)
EachVertexOnce(D) == D.rz = 1 => Apart(D)

SidesAt(D, z) == {i \in 1..Len(D.poly) : OnSideT(D.poly, i, z, VTol)}

VertexJustified(D) ==
  \A v \in 1..Len(D.V) :
    LET z == D.V[v].p IN
      /\ Len(z) = 2
      /\ InsideT(D.poly, z, VTol)
      /\ LET n == Cardinality(NearestTo(D, z)) IN
           \/ n >= 3
           \/ n >= 2 /\ SidesAt(D, z) # {}
           \/ \E i \in 1..Len(D.poly) : SamePoint(z, D.poly[i], VTol)

Listed(D, z) == \E v \in 1..Len(D.V) : Len(D.V[v].p) = 2 /\ SamePoint(D.V[v].p, z, VTol)

CornersListed(D) == \A i \in 1..Len(D.poly) : Listed(D, D.poly[i])

(* every Voronoi vertex inside is listed: for all triples of sites *)
VoronoiVerticesListed(D) ==
  \A i, j, k \in Sites(D) :
    (i < j /\ j < k /\ Orient(D.sites[i], D.sites[j], D.sites[k]) # 0) =>
      LET c == Circle(D.sites[i], D.sites[j], D.sites[k]) IN
        (/\ InsideT(D.poly, Center(c), BInt(-4)) /\ \A m \in Sites(D) : InCircle(c, D.sites[m]) >= 0)
          => Listed(D, Center(c))

(* every crossing of a Voronoi edge and the border is listed.  The bisector  *)
(* of i and j meets side s at a + (n/d)(b - a).                              *)
Crossing(D, i, j, s) ==
  LET a == D.poly[s]  b == Corner(D.poly, s + 1)
      p == D.sites[i]  q == D.sites[j]
      dx == BSub(X(q), X(p))  dy == BSub(Y(q), Y(p))
      \* 2 (z - p) . (q - p) = |q - p|^2
      d == BDbl(BAdd(BMul(BSub(X(b), X(a)), dx), BMul(BSub(Y(b), Y(a)), dy)))
      n == BSub(Dist2(p, q), BDbl(BAdd(BMul(BSub(X(a), X(p)), dx), BMul(BSub(Y(a), Y(p)), dy))))
  IN IF BSgn(d) < 0 THEN [n |-> BNeg(n), d |-> BNeg(d)] ELSE [n |-> n, d |-> d]
CrossingPoint(D, s, c) ==
  LET a == D.poly[s]  b == Corner(D.poly, s + 1)
  IN <<BAdd(X(a), BDiv(BMul(c.n, BSub(X(b), X(a))), c.d)), BAdd(Y(a), BDiv(BMul(c.n, BSub(Y(b), Y(a))), c.d))>>
CrossingsListed(D) ==
  \A i, j \in Sites(D) : i < j => \A s \in 1..Len(D.poly) :
    LET c == Crossing(D, i, j, s) IN
      (BSgn(c.d) > 0 /\ BSgn(c.n) >= 0 /\ BLeq(c.n, c.d)) =>
        LET z == CrossingPoint(D, s, c) IN
          (\A m \in Sites(D) \ {i, j} : BLt(BAdd(Dist(z, D.sites[i]), VTol), Dist(z, D.sites[m]))) => Listed(D, z)

ConnectedOk(D) ==
  \A v \in 1..Len(D.V) :
    /\ Range(D.V[v].ce) = {h \in Halves(D) : D.H[h].o = v}
    /\ Len(D.V[v].ce) = Cardinality(Range(D.V[v].ce))
OriginsListed(D) == \A h \in Halves(D) : IsVertex(D, D.H[h].o)

(* the corners of the cells are listed, and all vertices are corners *)
CornersAreVertices(D) == \A i \in Sites(D) : \A k \in 1..Len(D.cells[i].vv) : IsVertex(D, D.cells[i].vv[k])
VerticesAreCorners(D) == 1..Len(D.V) \subseteq UNION {Range(D.cells[i].vv) : i \in Sites(D)}

-----------------------------------------------------------------------------
(* C14: counts *)

Euler(D) == Len(D.V) - D.E + Len(D.sites) = 1
AllSitesKept(D) == D.nsites = Len(D.sites) /\ \A i \in Sites(D) : D.cells[i].pos > 0
CellsComplete(D) == \A i \in Sites(D) : D.cells[i].f # 0 /\ Len(D.cells[i].v) >= 3 /\ D.cells[i].ok = 1 /\ BSgn(D.cells[i].a) > 0

-----------------------------------------------------------------------------
(* C20: accessors *)

BordersFollowNext(D) ==
  \A i \in Sites(D) :
    LET b == D.cells[i].b IN
      /\ b # <<>>
      /\ Range(b) \subseteq CellHalves(D, i) /\ Range(b) = CellHalves(D, i) /\ Len(b) = Cardinality(Range(b))
      /\ \A k \in 1..Len(b) : IsHalf(D, b[k]) => D.H[b[k]].n = b[(k % Len(b)) + 1]
VerticesAreOrigins(D) ==
  \A i \in Sites(D) :
    LET c == D.cells[i] IN
      /\ Len(c.vv) = Len(c.b) /\ Len(c.v) = Len(c.b)
      /\ \A k \in 1..Len(c.b) : /\ IsHalf(D, c.b[k]) => D.H[c.b[k]].o = c.vv[k]
                                /\ IsVertex(D, c.vv[k]) => D.V[c.vv[k]].p = c.v[k]
(* largest coordinate: floating point areas lose digits far from the origin *)
FarAway(D) ==
  LET cs == {BAbs(X(D.poly[i])) : i \in 1..Len(D.poly)} \union {BAbs(Y(D.poly[i])) : i \in 1..Len(D.poly)}
  IN CHOOSE a \in cs : \A b \in cs : BLeq(b, a)
AreaTol(D) == BAdd(BDiv(BSq(FarAway(D)), <<1, 0, 0, 0, 1>>), BDiv(BSq(Extent(D)), <<1, 0, 0, 0, 1>>))
AreaIsShoelace(D) ==
  \A i \in Sites(D) : CellFinite(D, i) =>
    D.cells[i].ok = 1 /\ BNear(BDbl(D.cells[i].a), BAbs(Area2(CellPoints(D, i))), AreaTol(D))
(* q: the quantum 10^-digits in units of area *)
AreaRounded(D) ==
  \A i \in Sites(D) : D.cells[i].ok = 1 =>
    LET a == D.cells[i].a  r == D.cells[i].ar IN
      /\ BLeq(BDbl(BAbs(BSub(a, r))), BAdd(D.q, BDiv(AreaTol(D), <<1, 1000>>)))
      /\ LET m == BSub(r, BMul(D.q, BDiv(BAdd(r, BDiv(D.q, BInt(2))), D.q))) IN BLeq(BAbs(m), BDiv(AreaTol(D), <<1, 1000>>))

-----------------------------------------------------------------------------
Small(D) == Len(D.sites) <= 9

Clauses01(D) ==
  (IF CellsFinite(D) THEN {} ELSE {"C01.corners"}) \union
  (IF CellInPolygon(D) THEN {} ELSE {"C01.polygon"}) \union
  (IF CellNearest(D) THEN {} ELSE {"C01.nearest"}) \union
  (IF CellInOrder(D) THEN {} ELSE {"C01.order"}) \union
  (IF CellCornersDiffer(D) THEN {} ELSE {"C01.repeated"}) \union
  (IF CellsTile(D) THEN {} ELSE {"C01.tile"})

Clauses02(D) ==
  (IF TwinOk(D) THEN {} ELSE {"C02.twin"}) \union
  (IF EndsOk(D) THEN {} ELSE {"C02.ends"}) \union
  (IF OwnersOk(D) THEN {} ELSE {"C02.owner"}) \union
  (IF LinksOk(D) THEN {} ELSE {"C02.inverse"}) \union
  (IF NextStartsAtEnd(D) THEN {} ELSE {"C02.continue"}) \union
  (IF NextInCell(D) THEN {} ELSE {"C02.cell"}) \union
  (IF LoopOk(D) THEN {} ELSE {"C02.loop"})

Clauses03(D) ==
  (IF EachVertexOnce(D) THEN {} ELSE {"C03.twice"}) \union
  (IF VertexJustified(D) THEN {} ELSE {"C03.unjustified"}) \union
  (IF CornersListed(D) THEN {} ELSE {"C03.polygoncorner"}) \union
  (IF Small(D) => VoronoiVerticesListed(D) THEN {} ELSE {"C03.missingvertex"}) \union
  (IF Small(D) => CrossingsListed(D) THEN {} ELSE {"C03.missingcrossing"}) \union
  (IF ConnectedOk(D) THEN {} ELSE {"C03.connected"}) \union
  (IF OriginsListed(D) THEN {} ELSE {"C03.origin"}) \union
  (IF CornersAreVertices(D) THEN {} ELSE {"C03.cellcorner"}) \union
  (IF VerticesAreCorners(D) THEN {} ELSE {"C03.nocell"}) \union
  (IF Small(D) \/ (CellInPolygon(D) /\ CellNearest(D) /\ CellsTile(D)) THEN {} ELSE {"C03.incomplete"})

Clauses14(D) ==
  (IF D.rz = 1 => Euler(D) THEN {} ELSE {"C14.euler"}) \union
  (IF AllSitesKept(D) THEN {} ELSE {"C14.sites"}) \union
  (IF CellsComplete(D) THEN {} ELSE {"C14.cells"})

Clauses20(D) ==
  (IF BordersFollowNext(D) THEN {} ELSE {"C20.borders"}) \union
  (IF VerticesAreOrigins(D) THEN {} ELSE {"C20.vertices"}) \union
  (IF AreaIsShoelace(D) THEN {} ELSE {"C20.area"}) \union
  (IF AreaRounded(D) THEN {} ELSE {"C20.digits"}) \union
  (IF D.acc = 0 THEN {} ELSE {"C20.floats"})

Failures(D, want) ==
  (IF "C01" \in want THEN Clauses01(D) ELSE {}) \union
  (IF "C02" \in want THEN Clauses02(D) ELSE {}) \union
  (IF "C03" \in want THEN Clauses03(D) ELSE {}) \union
  (IF "C14" \in want THEN Clauses14(D) ELSE {}) \union
  (IF "C20" \in want THEN Clauses20(D) ELSE {})
=============================================================================
