------------------------------ MODULE MCRelate -------------------------------
(* The sweep itself has no preferred direction: for every set of sites on a small lattice and every symmetry of the square, and for    *)
(* every order of events the sweep may choose among ties, it ends with the same vertices and the same neighbours.                       *)
EXTENDS Relate, TLC, SequencesExt

CONSTANTS Size, MaxSites

VARIABLES M, SA, todoA, lineA, beachA, traceA, edgesA, vertsA, SB, todoB, lineB, beachB, traceB, edgesB, vertsB
A == INSTANCE Fortune WITH S <- SA, todo <- todoA, line <- lineA, beach <- beachA, trace <- traceA, edges <- edgesA, verts <- vertsA
B == INSTANCE Fortune WITH S <- SB, todo <- todoB, line <- lineB, beach <- beachB, trace <- traceB, edges <- edgesB, verts <- vertsB
varsA == <<SA, todoA, lineA, beachA, traceA, edgesA, vertsA>>
varsB == <<SB, todoB, lineB, beachB, traceB, edgesB, vertsB>>

Unit == <<1, 0, 0, 0, 0, 0, 1>>
Grid == {<<x, y>> : x \in 1..Size, y \in 1..Size}
At(g) == <<BMul(BInt(g[1]), Unit), BMul(BInt(g[2]), Unit)>>

Init == \E G \in SUBSET Grid : \E m \in Symmetries \ {<<1, 0, 0, 1>>} :
          /\ Cardinality(G) \in 2..MaxSites
          /\ M = m
          /\ LET s == [i \in 1..Cardinality(G) |-> At(SetToSeq(G)[i])] IN
             A!Start(s) /\ B!Start([i \in DOMAIN s |-> Turned(m, s[i])])
Next == IF ~A!Swept THEN A!Next /\ UNCHANGED <<M, varsB>> ELSE ~B!Swept /\ B!Next /\ UNCHANGED <<M, varsA>>
Spec == Init /\ [][Next]_<<M, varsA, varsB>>

Place(S, v) == Center(Circle(S[v[1]], S[v[2]], S[v[3]]))
Near4(z, w) == SamePoint(z, w, BInt(8))
SameVertices == /\ \A v \in Range(vertsA) : \E w \in Range(vertsB) : Near4(Turned(M, Place(SA, v)), Place(SB, w))
                /\ \A w \in Range(vertsB) : \E v \in Range(vertsA) : Near4(Turned(M, Place(SA, v)), Place(SB, w))
(* neighbours: edges that do not begin and end in the same place *)
Proper(S, verts, e) == Cardinality(e.ends) < 2 \/ ~\A v, w \in e.ends : Near4(Place(S, verts[v]), Place(S, verts[w]))
Neighbours(S, verts, edges) == {edges[k].pair : k \in {k \in DOMAIN edges : Proper(S, verts, edges[k])}}
Symmetric == A!Swept /\ B!Swept => SameVertices /\ Neighbours(SA, vertsA, edgesA) = Neighbours(SB, vertsB, edgesB)
=============================================================================
