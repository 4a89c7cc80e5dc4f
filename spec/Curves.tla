------------------------------- MODULE Curves -------------------------------
(* Where breakpoints and arcs are, by their characterisation (property C21): a breakpoint has the same distance to both sites and to the sweep
   line, the arc on its left is the lower one left of it and the arc on its right is the lower one right of it.
   A breakpoint is given as found: x, y (<<>>: infinitely high).                                                                     *)
EXTENDS Geom

(* slack of a height on a curve that is steep there *)
SteepTol(p, x, l) == BAdd(Tol, BDiv(BMul(Tol, BAbs(BSub(x, X(p)))), BSub(Y(p), l)))
Exists(a, b) == ~(Y(a) = Y(b) /\ BLt(X(b), X(a)))
OnIt(p, l) == Y(p) = l
OnCurve(p, q, l, slack) == BNear(Dist(p, q), BSub(Y(p), l), slack)

(* which of the curves of a and b is lower at x, both sites above the line: < 0 a *)
Lower(a, b, x, l) == BCmp(ParaY(a, x, l), ParaY(b, x, l))

(* f: the breakpoint found, other: the x-coordinate of the one with the arcs the other way round; top: height for infinite ones, or <<>>  *)
Misplaced(a, b, l, f, other, top) ==
    LET x == f[1] y == f[2] IN
    IF Y(a) = Y(b) THEN
        (IF BNear(x, BDiv(BAdd(X(a), X(b)), BInt(2)), Tol) THEN {} ELSE {"middle"}) \cup
        (IF Exists(a, b) /\ ~OnIt(a, l)
         THEN (IF y # <<>> /\ OnCurve(<<x, y>>, a, l, SteepTol(a, x, l)) /\ OnCurve(<<x, y>>, b, l, SteepTol(b, x, l)) THEN {} ELSE {"distance"})
         ELSE (IF y = <<>> \/ (~Exists(a, b) /\ y = top) THEN {} ELSE {"infinite"}))
    ELSE IF OnIt(a, l) \/ OnIt(b, l) THEN
        LET p == IF OnIt(a, l) THEN a ELSE b q == IF OnIt(a, l) THEN b ELSE a IN
        (IF BNear(x, X(p), Tol) THEN {} ELSE {"under"}) \cup
        (IF y # <<>> /\ OnCurve(<<x, y>>, q, l, SteepTol(q, x, l)) THEN {} ELSE {"distance"})
    ELSE IF y = <<>> THEN {"finite"}
    ELSE (IF OnCurve(<<x, y>>, a, l, SteepTol(a, x, l)) /\ OnCurve(<<x, y>>, b, l, SteepTol(b, x, l)) THEN {} ELSE {"distance"}) \cup
         (LET gap == BDiv(BAbs(BSub(x, other)), BInt(2)) IN
          IF BLeq(gap, BMul(Tol, BInt(4))) THEN {}
          ELSE IF Lower(a, b, BSub(x, gap), l) < 0 /\ Lower(a, b, BAdd(x, gap), l) > 0 THEN {} ELSE {"sides"})
=============================================================================
