------------------------------ MODULE FullTree ------------------------------
(* Trees whose inner nodes have two children, as used for the beach line (property C17): what searching, stepping from leaf to leaf,
   replacing a leaf and rotating have to result in.  A tree is <<>> or <<left, key, right>>.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLeaves

Leaf(k) == <<<<>>, k, <<>>>>
IsLeaf(t) == t[1] = <<>>
RECURSIVE Shapes(_), Size(_), Label(_, _), Height(_), Dress(_), InO(_), Leaves(_), Inner(_)
Shapes(n) == IF n = 1 THEN {Leaf(0)} ELSE UNION {{<<l, 0, r>> : l \in Shapes(i), r \in Shapes(n - i)} : i \in 1 .. n - 1}
Size(t) == IF t = <<>> THEN 0 ELSE 1 + Size(t[1]) + Size(t[3])
(* keys in order, multiples of 6 from k on, so that there is room in every gap *)
Label(t, k) == IF t = <<>> THEN <<>> ELSE LET m == k + 6 * Size(t[1]) IN <<Label(t[1], k), m, Label(t[3], m + 6)>>
Height(t) == IF t = <<>> THEN 0 ELSE LET a == Height(t[1])  b == Height(t[3]) IN 1 + (IF a > b THEN a ELSE b)
Dress(t) == IF t = <<>> THEN <<>> ELSE <<Dress(t[1]), t[2], Dress(t[3]), Height(t)>>
InO(t) == IF t = <<>> THEN <<>> ELSE InO(t[1]) \o <<t[2]>> \o InO(t[3])
Leaves(t) == IF IsLeaf(t) THEN <<t[2]>> ELSE Leaves(t[1]) \o Leaves(t[3])
Inner(t) == IF IsLeaf(t) THEN {} ELSE {t[2]} \cup Inner(t[1]) \cup Inner(t[3])

(* the leaf a search for key k ends in: right of all smaller inner keys, left of all others *)
Search(t, k) == Leaves(t)[1 + Cardinality({i \in Inner(t) : i < k})]

RotL(z) == LET y == z[3] IN <<<<z[1], z[2], y[1]>>, y[2], y[3]>>
RotR(z) == LET y == z[1] IN <<y[1], y[2], <<y[3], z[2], z[3]>>>>
RECURSIVE Sub(_, _), Put(_, _, _), Bal(_)
Sub(t, k) == IF t[2] = k THEN t ELSE IF k < t[2] THEN Sub(t[1], k) ELSE Sub(t[3], k)
Put(t, k, u) == IF t[2] = k THEN u ELSE IF k < t[2] THEN <<Put(t[1], k, u), t[2], t[3]>> ELSE <<t[1], t[2], Put(t[3], k, u)>>
Bal(t) == t = <<>> \/ (Bal(t[1]) /\ Bal(t[3]) /\ Height(t[1]) - Height(t[3]) \in {-1, 0, 1})

(* what replaces a leaf: itself, two leaves, three leaves *)
Graft(k) == {Leaf(k), <<Leaf(k - 1), k, Leaf(k + 1)>>, <<Leaf(k - 2), k - 1, <<Leaf(k), k + 1, Leaf(k + 2)>>>>}
(* leaf k disappears: its sibling takes the place of their parent *)
RECURSIVE Cut(_, _)
Cut(t, k) == IF IsLeaf(t) THEN t
             ELSE IF IsLeaf(t[1]) /\ t[1][2] = k THEN t[3]
             ELSE IF IsLeaf(t[3]) /\ t[3][2] = k THEN t[1]
             ELSE <<Cut(t[1], k), t[2], Cut(t[3], k)>>

Range(s) == {s[i] : i \in DOMAIN s}
SetSeq(S) == LET RECURSIVE f(_)
                 f(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o f(T \ {x})
             IN f(S)

VARIABLE t
Init == \E n \in 1 .. MaxLeaves : \E s \in Shapes(n) : t = Label(s, 6)
Next == UNCHANGED t
Spec == Init /\ [][Next]_t

(* the laws the operators above must have themselves *)
RotationsKeepOrder == \A k \in Inner(t) : LET z == Sub(t, k) IN
     /\ ~IsLeaf(z[3]) => InO(RotL(z)) = InO(z) /\ RotR(RotL(z)) = z
     /\ ~IsLeaf(z[1]) => InO(RotR(z)) = InO(z) /\ RotL(RotR(z)) = z
SearchEndsInLeaf == \A k \in 1 .. 6 * Size(t) + 7 : Search(t, k) \in Range(Leaves(t))
CutRemovesTwo == ~IsLeaf(t) => \A k \in Range(Leaves(t)) : Size(Cut(t, k)) = Size(t) - 2 /\ k \notin Range(InO(Cut(t, k)))
LeavesAreEveryOther == LET o == InO(t) IN Leaves(t) = [i \in 1 .. (Len(o) + 1) \div 2 |-> o[2 * i - 1]]

Emit == PrintT(<<"HIST", ToJson([
    tree |-> t, dressed |-> Dress(t), leaves |-> Leaves(t), balanced |-> Bal(t),
    search |-> [k \in 1 .. 6 * Size(t) + 7 |-> Search(t, k)],
    rotl |-> SetSeq({<<k, Dress(RotL(Sub(t, k))), Put(t, k, RotL(Sub(t, k)))>> : k \in {j \in Inner(t) : ~IsLeaf(Sub(t, j)[3])}}),
    rotr |-> SetSeq({<<k, Dress(RotR(Sub(t, k))), Put(t, k, RotR(Sub(t, k)))>> : k \in {j \in Inner(t) : ~IsLeaf(Sub(t, j)[1])}}),
    repl |-> SetSeq(UNION {{<<k, g, Dress(Put(t, k, g)), InO(Put(t, k, g))>> : g \in Graft(k)} : k \in Range(Leaves(t))}),
    cut |-> SetSeq({<<k, Dress(Cut(t, k)), InO(Cut(t, k))>> : k \in IF IsLeaf(t) THEN {} ELSE Range(Leaves(t))}),
    spans |-> SetSeq({<<k, InO(Sub(t, k))>> : k \in Range(InO(t))})
    ])>>)
=============================================================================
