------------------------------ MODULE MCCurves ------------------------------
(* Two sites and a sweep line that moves down in half steps.  Checks that the formulas of Geom, on which the specifications of the sweep are
   built, have the characterisation of Curves, and how breakpoints move.                                                            *)
EXTENDS Curves, TLC

CONSTANTS Width, Height, Depth
VARIABLES a, b, l
vars == <<a, b, l>>
Unit == <<1, 0, 0, 0, 0, 5000>>    \* half a lattice step: 5 * 10^19 units
Pt(x, y) == <<BMul(BInt(2 * x), Unit), BMul(BInt(2 * y), Unit)>>
H(n) == BMul(BInt(n), Unit)
(* l: sweep line in half steps *)
Init == /\ a \in {Pt(x, y) : x \in 1 .. Width, y \in 1 .. Height} /\ b \in {Pt(x, y) : x \in 1 .. Width, y \in 1 .. Height} /\ a # b
        /\ l \in 2 .. 2 * Height /\ H(l) = BMin(Y(a), Y(b))
Next == l > -Depth /\ l' = l - 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars

At(p, q, k) == <<BreakX(p, q, H(k)), IF BreakFinite(p, q, H(k)) THEN BreakY(p, q, H(k)) ELSE <<>> >>
Characterised == Exists(a, b) => Misplaced(a, b, H(l), At(a, b, l), BreakX(b, a, H(l)), <<>>) = {}
(* both breakpoints trace the bisector of the sites, away from each other *)
Bisector == BreakFinite(a, b, H(l)) /\ Exists(a, b) => LET f == At(a, b, l) s == BMul(Tol, BInt(100)) IN BNear(Dist(f, a), Dist(f, b), s)
LowerSiteBetween == Y(a) # Y(b) => LET lo == IF BLt(Y(a), Y(b)) THEN a ELSE b hi == IF lo = a THEN b ELSE a
                                   IN BLeq(BreakX(hi, lo, H(l)), BAdd(X(lo), Tol)) /\ BLeq(X(lo), BAdd(BreakX(lo, hi, H(l)), Tol))
Apart == [][Y(a) # Y(b) => LET lo == IF BLt(Y(a), Y(b)) THEN a ELSE b hi == IF lo = a THEN b ELSE a
                           IN BLt(BreakX(hi, lo, H(l')), BreakX(hi, lo, H(l))) /\ BLt(BreakX(lo, hi, H(l)), BreakX(lo, hi, H(l')))]_vars
=============================================================================
