------------------------------ MODULE AvlTree --------------------------------
(* Binary trees recorded from the implementation, as a sequence of nodes     *)
(* (the root first).  A node is a record with l, r: left and right child     *)
(* (0: none), h: stored height, pa = 1: its parent pointer is right.         *)
(* The order of operations on such trees is in TreeHistory.                  *)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b

IsInner(N, i) == N[i].l # 0 \/ N[i].r # 0

(* children come later in the sequence than their parent, so that the        *)
(* recursions below end                                                      *)
IsTree(N) ==
  /\ \A i \in 1..Len(N) : /\ N[i].l = 0 \/ N[i].l \in (i + 1)..Len(N)
                          /\ N[i].r = 0 \/ N[i].r \in (i + 1)..Len(N)
  /\ \A i \in 2..Len(N) : Cardinality({p \in 1..Len(N) : N[p].l = i \/ N[p].r = i}) = 1
  /\ \A i \in 1..Len(N) : N[i].l # 0 => N[i].l # N[i].r

RECURSIVE InOrder(_, _)
InOrder(N, i) == IF i = 0 THEN <<>> ELSE InOrder(N, N[i].l) \o <<i>> \o InOrder(N, N[i].r)

RECURSIVE LeavesOf(_, _)
LeavesOf(N, i) == IF i = 0 THEN <<>>
                  ELSE IF ~IsInner(N, i) THEN <<i>>
                  ELSE LeavesOf(N, N[i].l) \o LeavesOf(N, N[i].r)

RECURSIVE HeightOf(_, _)
HeightOf(N, i) == IF i = 0 THEN 0 ELSE 1 + Max2(HeightOf(N, N[i].l), HeightOf(N, N[i].r))

HeightsStored(N) == \A i \in 1..Len(N) : N[i].h = HeightOf(N, i)
Balanced(N) == \A i \in 1..Len(N) :
   LET d == HeightOf(N, N[i].l) - HeightOf(N, N[i].r) IN d \in {-1, 0, 1}
ParentsRight(N) == \A i \in 1..Len(N) : N[i].pa = 1
TwoChildren(N) == \A i \in 1..Len(N) : IsInner(N, i) => (N[i].l # 0 /\ N[i].r # 0)

-----------------------------------------------------------------------------
(* the status tree: leaves hold arcs (a = b = site), inner nodes breakpoints *)
(* (a, b), leaves know their neighbours pd and su                            *)

LeafSites(N) == LET L == LeavesOf(N, 1) IN [k \in 1..Len(L) |-> N[L[k]].a]
SeparatorsRight(N) ==
  \A i \in 1..Len(N) : (N[i].l # 0 /\ N[i].r # 0) =>
    LET left == LeavesOf(N, N[i].l)  right == LeavesOf(N, N[i].r)
    IN N[i].a = N[left[Len(left)]].a /\ N[i].b = N[right[1]].a
NeighboursRight(N) ==
  LET L == LeavesOf(N, 1) IN
    \A k \in 1..Len(L) : /\ N[L[k]].pd = IF k = 1 THEN 0 ELSE L[k-1]
                         /\ N[L[k]].su = IF k = Len(L) THEN 0 ELSE L[k+1]

StatusTreeFailures(N, beach) ==
  IF N = <<>> THEN {"C08.empty"}
  ELSE IF ~IsTree(N) THEN {"C08.shape"}
  ELSE (IF LeafSites(N) = beach THEN {} ELSE {"C08.leaves"}) \union
       (IF TwoChildren(N) THEN {} ELSE {"C08.children"}) \union
       (IF ParentsRight(N) THEN {} ELSE {"C08.parent"}) \union
       (IF SeparatorsRight(N) THEN {} ELSE {"C08.separator"}) \union
       (IF NeighboursRight(N) THEN {} ELSE {"C08.neighbour"}) \union
       (IF HeightsStored(N) THEN {} ELSE {"C08.height"}) \union
       (IF Balanced(N) THEN {} ELSE {"C08.balance"})
=============================================================================
