------------------------------- MODULE Relate --------------------------------
(* How the diagrams of related inputs are related (properties C12, C15, C16).                                                       *)
(* A map T takes a point of input A to a point of input B: first one of the eight symmetries of the square, given by its matrix     *)
(* <<a, b, c, d>> (x, y) -> (a x + b y, c x + d y), then a scaling by p / q, then a translation.                                    *)
(* Diagrams are records with sites, poly (clockwise) and for each site a cell: its corners v and for each corner k the cell nb[k]   *)
(* on the other side of the edge from corner k to the next one (0: the border).                                                     *)
EXTENDS Geom

Symmetries == {<<1, 0, 0, 1>>, <<-1, 0, 0, 1>>, <<1, 0, 0, -1>>, <<-1, 0, 0, -1>>, <<0, 1, 1, 0>>, <<0, 1, -1, 0>>, <<0, -1, 1, 0>>, <<0, -1, -1, 0>>}

BTimes(n, b) == IF n = 0 THEN BZero ELSE IF n > 0 THEN b ELSE BNeg(b)
Turned(M, z) == <<BAdd(BTimes(M[1], X(z)), BTimes(M[2], Y(z))), BAdd(BTimes(M[3], X(z)), BTimes(M[4], Y(z)))>>

(* q times the image of z: exact *)
Image(T, z) == LET t == Turned(T.m, z) IN <<BAdd(BMul(T.p, X(t)), BMul(T.q, T.d[1])), BAdd(BMul(T.p, Y(t)), BMul(T.q, T.d[2]))>>
Times(T, z) == <<BMul(T.q, X(z)), BMul(T.q, Y(z))>>

(* B's input is the image of A's input; perm[i]: the number in B of site i of A *)
Range(s) == {s[i] : i \in DOMAIN s}
Mapped(T, A, B, perm) ==
    /\ T.m \in Symmetries
    /\ Len(A.sites) = Len(B.sites) /\ Range(perm) = DOMAIN B.sites /\ DOMAIN perm = DOMAIN A.sites
    /\ \A i \in DOMAIN A.sites : Times(T, B.sites[perm[i]]) = Image(T, A.sites[i])
    /\ {Times(T, z) : z \in Range(B.poly)} = {Image(T, z) : z \in Range(A.poly)}

Slack(T) == BMul(T.q, BMul(BInt(4), Tol))
Finite(c) == Len(c.v) >= 3 /\ \A k \in DOMAIN c.v : Len(c.v[k]) = 2

(* every corner of one cell is a corner of the other one (corners closer than the tolerance count as one) *)
SameCorners(T, a, b) ==
    /\ \A k \in DOMAIN a.v : \E j \in DOMAIN b.v : SamePoint(Image(T, a.v[k]), Times(T, b.v[j]), Slack(T))
    /\ \A j \in DOMAIN b.v : \E k \in DOMAIN a.v : SamePoint(Image(T, a.v[k]), Times(T, b.v[j]), Slack(T))

(* neighbours across edges that are not tiny *)
Long(z, w, t) == ~SamePoint(z, w, BMul(BInt(8), t))
Sides(c, t) == {c.nb[k] : k \in {k \in DOMAIN c.v : Long(c.v[k], Corner(c.v, k + 1), t)}}
AllSides(c) == Range(c.nb)
SameNeighbours(T, perm, a, b) ==
    LET to(n) == IF n \in DOMAIN perm THEN perm[n] ELSE n
        ta == BDiv(BMul(Slack(T), BOne), T.p)
        tb == BMul(BInt(4), Tol)
    IN /\ {to(n) : n \in Sides(a, ta)} \subseteq AllSides(b)
       /\ Sides(b, tb) \subseteq {to(n) : n \in AllSides(a)}

CellFailures(T, A, B, perm, i, tag) ==
    LET a == A.cells[i]  b == B.cells[perm[i]] IN
    IF ~Finite(a) \/ ~Finite(b) THEN {tag \o ".cell"}
    ELSE (IF SameCorners(T, a, b) THEN {} ELSE {tag \o ".corners"}) \union
         (IF SameNeighbours(T, perm, a, b) THEN {} ELSE {tag \o ".neighbours"})

Failures(T, A, B, perm, tag) == UNION {CellFailures(T, A, B, perm, i, tag) : i \in DOMAIN A.sites}

-----------------------------------------------------------------------------
(* polygons *)
(* a corner may lie on a straight line with its neighbours, but not beyond them *)
Between(a, b, z) == BLeq(BAdd(BMul(BSub(X(z), X(a)), BSub(X(z), X(b))), BMul(BSub(Y(z), Y(a)), BSub(Y(z), Y(b)))), BInt(0))
Clockwise(P) == \A i \in DOMAIN P : \A j \in DOMAIN P \ {i, (i % Len(P)) + 1} :
                   LET o == Orient(P[i], Corner(P, i + 1), P[j]) IN o < 0 \/ (o = 0 /\ ~Between(P[i], Corner(P, i + 1), P[j]))
(* the corners of a convex polygon, each once, clockwise *)
CycleOf(given, P) == Len(P) = Len(given) /\ Range(P) = Range(given) /\ Clockwise(P)
Least(A) == CHOOSE a \in A : \A b \in A : BLeq(a, b)
Greatest(A) == CHOOSE a \in A : \A b \in A : BLeq(b, a)
Bounds(P) == LET xs == {X(z) : z \in Range(P)}  ys == {Y(z) : z \in Range(P)} IN <<Least(xs), Greatest(xs), Least(ys), Greatest(ys)>>
InsideRight(P, z, answer) == (StrictlyInside(P, z) => answer = 1) /\ (StrictlyOutside(P, z) => answer = 0)
=============================================================================
