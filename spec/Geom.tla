-------------------------------- MODULE Geom --------------------------------
(* Exact plane geometry on big integers.  A point is <<x, y>> with both      *)
(* coordinates big integers (see BigInt) in a unit that is so small that     *)
(* sites and polygon corners are integral, and that rounding results to      *)
(* whole units is far below every tolerance used here.                       *)
EXTENDS BigInt, FiniteSets

X(p) == p[1]
Y(p) == p[2]

(* Tolerances in units.  The extent of an input is 10^20 .. 10^21 units.     *)
Tol  == <<1, 0, 0, 0, 100>>         \* 10^14: positions computed with floats
Tie  == <<1, 0, 0, 100>>            \* 10^10: events this close may swap
Flat == <<1, 0, 1>>                 \* 10^4 : a site this close to the sweep line is on it

Cross(ax, ay, bx, by) == BSub(BMul(ax, by), BMul(ay, bx))

(* > 0: a, b, c turn counterclockwise, < 0: clockwise, = 0: collinear *)
OrientB(a, b, c) == Cross(BSub(X(b), X(a)), BSub(Y(b), Y(a)), BSub(X(c), X(a)), BSub(Y(c), Y(a)))
Orient(a, b, c) == BSgn(OrientB(a, b, c))

Dist2(p, q) == BAdd(BSq(BSub(X(p), X(q))), BSq(BSub(Y(p), Y(q))))
Dist(p, q) == BSqrt(Dist2(p, q))

SamePoint(p, q, t) == BNear(X(p), X(q), t) /\ BNear(Y(p), Y(q), t)

(* The circle through a, b, c (not collinear): its center is                 *)
(* a + <<u, v>> / g with g > 0.                                              *)
Circle(a, b, c) ==
  LET bx == BSub(X(b), X(a))  by == BSub(Y(b), Y(a))
      cx == BSub(X(c), X(a))  cy == BSub(Y(c), Y(a))
      bb == BAdd(BSq(bx), BSq(by))
      cc == BAdd(BSq(cx), BSq(cy))
      g == BDbl(Cross(bx, by, cx, cy))
      u == BSub(BMul(cy, bb), BMul(by, cc))
      v == BSub(BMul(bx, cc), BMul(cx, bb))
  IN IF BSgn(g) > 0 THEN [o |-> a, g |-> g, u |-> u, v |-> v]
     ELSE [o |-> a, g |-> BNeg(g), u |-> BNeg(u), v |-> BNeg(v)]

(* center, radius and lowest point, rounded down to whole units *)
Center(k) == <<BAdd(X(k.o), BDiv(k.u, k.g)), BAdd(Y(k.o), BDiv(k.v, k.g))>>
Radius(k) == BDiv(BSqrt(BAdd(BSq(k.u), BSq(k.v))), k.g)
Bottom(k) == BAdd(Y(k.o), BDiv(BSub(k.v, BSqrt(BAdd(BSq(k.u), BSq(k.v)))), k.g))

(* the implementation computes circles with 28 digits, so centers far away (radius r) are off by about 10^-28 r^2 / extent *)
FarTol(k) == BDiv(BSq(Radius(k)), <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 100>>)

(* < 0: p strictly inside the circle, = 0: on it, > 0: outside.  Exact. *)
InCircle(k, p) ==
  LET wx == BSub(X(p), X(k.o))  wy == BSub(Y(p), Y(k.o))
  IN BCmp(BMul(BAdd(BSq(wx), BSq(wy)), k.g), BDbl(BAdd(BMul(wx, k.u), BMul(wy, k.v))))

-----------------------------------------------------------------------------
(* The parabola of site p for the sweep line y = l: all points with equal    *)
(* distance to p and to the line.  Degenerates to a vertical ray when p is   *)
(* on the line.                                                              *)
OnLine(p, l) == BLeq(BSub(Y(p), l), Flat)

ParaY(p, x, l) ==
  LET h == BSub(Y(p), l)
  IN BAdd(l, BDiv(BAdd(BSq(BSub(x, X(p))), BSq(h)), BDbl(h)))

(* x-coordinate of the breakpoint with the arc of a on its left and the arc  *)
(* of b on its right.                                                        *)
BreakX(a, b, l) ==
  LET ha == BSub(Y(a), l)
      hb == BSub(Y(b), l)
      dh == BSub(hb, ha)
      dx == BSub(X(b), X(a))
  IN IF BSgn(dh) = 0 THEN BDiv(BAdd(X(a), X(b)), BInt(2))
     ELSE IF OnLine(a, l) THEN X(a)
     ELSE IF OnLine(b, l) THEN X(b)
     ELSE LET root == BSqrt(BMul(BMul(ha, hb), BAdd(BSq(dx), BSq(dh))))
              num == BSub(root, BMul(ha, dx))
          IN BAdd(X(a), IF BSgn(dh) > 0 THEN BDiv(num, dh) ELSE BDiv(BNeg(num), BNeg(dh)))

(* is the height of that breakpoint finite, and which *)
BreakFinite(a, b, l) == ~(OnLine(a, l) /\ OnLine(b, l))
BreakY(a, b, l) == LET x == BreakX(a, b, l) IN IF OnLine(a, l) THEN ParaY(b, x, l) ELSE ParaY(a, x, l)

-----------------------------------------------------------------------------
(* x <= y up to tolerance t *)
LeqT(x, y, t) == BLeq(x, BAdd(y, t))

(* p is (within t) at least as near to s as to q *)
NearerT(p, s, q, t) ==
  LET ds == Dist2(p, s)  dq == Dist2(p, q)
  IN BLeq(ds, dq) \/ BLeq(BSqrt(ds), BAdd(BSqrt(dq), t))

(* convex polygon as sequence of corners in clockwise order *)
Corner(P, i) == P[((i - 1) % Len(P)) + 1]

(* strictly inside / strictly outside a clockwise convex polygon, exact *)
StrictlyInside(P, p) == \A i \in 1..Len(P) : Orient(P[i], Corner(P, i + 1), p) < 0
StrictlyOutside(P, p) == \E i \in 1..Len(P) : Orient(P[i], Corner(P, i + 1), p) > 0

(* signed distance to the border line of side i is at least -t *)
SideLeqT(P, i, p, t) ==
  LET a == P[i]  b == Corner(P, i + 1)
  IN BLeq(OrientB(a, b, p), BMul(t, Dist(a, b)))
InsideT(P, p, t) == \A i \in 1..Len(P) : SideLeqT(P, i, p, t)
OnSideT(P, i, p, t) == SideLeqT(P, i, p, t) /\ BLeq(BNeg(BMul(t, Dist(P[i], Corner(P, i + 1)))), OrientB(P[i], Corner(P, i + 1), p))
OnBorderT(P, p, t) == InsideT(P, p, t) /\ \E i \in 1..Len(P) : OnSideT(P, i, p, t)

(* twice the signed area of a closed polygon *)
RECURSIVE Area2From(_, _)
Area2From(P, i) ==
  IF i > Len(P) THEN BZero
  ELSE BAdd(Cross(X(P[i]), Y(P[i]), X(Corner(P, i + 1)), Y(Corner(P, i + 1))), Area2From(P, i + 1))
Area2(P) == Area2From(P, 1)
=============================================================================
