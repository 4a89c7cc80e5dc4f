----------------------------- MODULE MCFortune ------------------------------
(* Exhaustive check of Fortune: all sets of 1..MaxSites sites on a grid of   *)
(* Width x Height lattice points.                                            *)
EXTENDS Fortune, TLC, SequencesExt

CONSTANTS Width, Height, MaxSites

Unit == <<1, 0, 0, 0, 0, 0, 1>>           \* grid step: 10^20 units
Grid == {<<x, y>> : x \in 1..Width, y \in 1..Height}
At(g) == <<BMul(BInt(g[1]), Unit), BMul(BInt(g[2]), Unit)>>

Init == \E A \in SUBSET Grid :
          /\ Cardinality(A) \in 1..MaxSites
          /\ Start([i \in 1..Cardinality(A) |-> At(SetToSeq(A)[i])])

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finishes == <>Swept
NoDeadlockBeforeEnd == Swept \/ ENABLED Next
=============================================================================
