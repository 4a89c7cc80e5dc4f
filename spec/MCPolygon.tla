------------------------------ MODULE MCPolygon ------------------------------
(* Every convex polygon with corners on a small lattice: its corners clockwise, its bounds, and which points of a lattice of half the   *)
(* step in and around it are strictly inside (1), strictly outside (0) or on its border (2).                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS W, H, MaxCorners
VARIABLES P, done

O(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Grid == {<<2 * x, 2 * y>> : x \in 0..W, y \in 0..H}

(* the corner that follows a clockwise: all others lie to the right, or further ahead or behind on the same side (where the polygon does not turn) *)
Within(a, b, c) == (c[1] - a[1]) * (c[1] - b[1]) + (c[2] - a[2]) * (c[2] - b[2]) <= 0
Follows(C, a, b) == a # b /\ \A c \in C \ {a, b} : O(a, b, c) < 0 \/ (O(a, b, c) = 0 /\ ~Within(a, b, c))
RECURSIVE Around(_, _, _)
Around(C, s, q) == LET nx == {b \in C : Follows(C, q[Len(q)], b)}
                   IN IF Cardinality(nx) # 1 THEN <<>>
                      ELSE LET b == CHOOSE b \in nx : TRUE
                           IN IF b = s THEN q ELSE IF Len(q) >= Cardinality(C) THEN <<>> ELSE Around(C, s, Append(q, b))
(* <<>> if the corners are not those of a convex polygon *)
CycleOf(C) == LET s == CHOOSE s \in C : TRUE  q == Around(C, s, <<s>>) IN IF Len(q) = Cardinality(C) THEN q ELSE <<>>

Side(C, i, z) == O(C[i], C[(i % Len(C)) + 1], z)
Where(C, z) == IF \E i \in DOMAIN C : Side(C, i, z) > 0 THEN 0 ELSE IF \A i \in DOMAIN C : Side(C, i, z) < 0 THEN 1 ELSE 2
Around1 == {<<x, y>> : x \in -1..(2 * W + 1), y \in -1..(2 * H + 1)}

Init == /\ \E k \in 3..MaxCorners : \E C \in kSubset(k, Grid) : CycleOf(C) # <<>> /\ P = CycleOf(C)
        /\ done = FALSE
Show == /\ ~done /\ done' = TRUE /\ UNCHANGED P
        /\ PrintT(<<"HIST", ToJson([cycle |-> P, bounds |-> <<Min({z[1] : z \in ToSet(P)}), Max({z[1] : z \in ToSet(P)}),
                                                              Min({z[2] : z \in ToSet(P)}), Max({z[2] : z \in ToSet(P)})>>,
                                    table |-> SetToSeq({<<z[1], z[2], Where(P, z)>> : z \in Around1})])>>)
Spec == Init /\ [][Show]_<<P, done>>

(* ray casting as an independent definition of inside, for points not on the border *)
Crosses(a, b, z) == (a[2] > z[2]) # (b[2] > z[2]) /\ (IF b[2] > a[2] THEN O(a, b, z) > 0 ELSE O(a, b, z) < 0)
Parity(C, z) == Cardinality({i \in DOMAIN C : Crosses(C[i], C[(i % Len(C)) + 1], z)}) % 2
RayCastingAgrees == \A z \in Around1 : Where(P, z) # 2 => Parity(P, z) = Where(P, z)
(* Pick's theorem: area from the corners and from counting the lattice points of the finer lattice *)
Cr(a, b) == a[1] * b[2] - a[2] * b[1]
RECURSIVE Twice(_, _)
Twice(C, i) == IF i > Len(C) THEN 0 ELSE Cr(C[i], C[(i % Len(C)) + 1]) + Twice(C, i + 1)
Pick == LET i == Cardinality({z \in Around1 : Where(P, z) = 1})  b == Cardinality({z \in Around1 : Where(P, z) = 2})
        IN -Twice(P, 1) = 2 * i + b - 2
=============================================================================
