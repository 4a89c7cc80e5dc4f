------------------------------- MODULE Cleanup -------------------------------
(* Removal of zero-length edges as a state machine on half-edge structures:  *)
(* an edge whose ends coincide is contracted, one at a time, in any order.   *)
(* A structure is that of Diagram; the state is what a contraction changes.  *)
(* (Property C04)                                                            *)
EXTENDS Diagram

VARIABLES
  alive,  \* half-edges that are left
  org,    \* half-edge -> vertex
  nxt,    \* half-edge -> next half-edge (0 none)
  prv,    \* half-edge -> previous half-edge (0 none)
  fst     \* site -> first half-edge of its cell

cvars == <<alive, org, nxt, prv, fst>>

TwinOf(D, h) == D.H[h].t
PosOf(D, v) == IF IsVertex(D, v) THEN D.V[v].c ELSE 0

Begin(D) ==
  /\ alive = Halves(D)
  /\ org = [h \in Halves(D) |-> D.H[h].o]
  /\ nxt = [h \in Halves(D) |-> D.H[h].n]
  /\ prv = [h \in Halves(D) |-> D.H[h].p]
  /\ fst = [i \in Sites(D) |-> D.cells[i].f]

ZeroLength(D, h) == PosOf(D, org[h]) = PosOf(D, org[TwinOf(D, h)])
Zero(D) == {h \in alive : h < TwinOf(D, h) /\ ZeroLength(D, h)}

(* h and its twin disappear; the vertex at its start is merged into the one  *)
(* at its end                                                                *)
Contract(D, h) ==
  LET t == TwinOf(D, h)
      gone == {h, t}
      skip(m, x) == IF m[x] \in gone THEN m[m[x]] ELSE m[x]
  IN /\ alive' = alive \ gone
     /\ org' = [x \in Halves(D) |-> IF org[x] = org[h] THEN org[t] ELSE org[x]]
     /\ nxt' = [x \in Halves(D) |-> IF nxt[x] \in gone THEN nxt[nxt[x]] ELSE nxt[x]]
     /\ prv' = [x \in Halves(D) |-> IF prv[x] \in gone THEN prv[prv[x]] ELSE prv[x]]
     /\ fst' = [i \in Sites(D) |-> IF fst[i] \in gone THEN nxt[fst[i]] ELSE fst[i]]

Contracted(D) == Zero(D) = {}

-----------------------------------------------------------------------------
(* what contraction keeps *)
StillConsistent(D) ==
  \A h \in alive : D.H[h].s # 0 =>
    /\ nxt[h] \in alive /\ prv[nxt[h]] = h
    /\ D.H[nxt[h]].s = D.H[h].s
    /\ org[nxt[h]] = org[TwinOf(D, h)]

SameLength(D) == Cardinality({h \in Halves(D) : PosOf(D, D.H[h].o) # PosOf(D, D.H[TwinOf(D, h)].o)}) =
                 Cardinality({h \in alive : ~ZeroLength(D, h)})

-----------------------------------------------------------------------------
(* the structure D1 (zero-length edges removed) is the contraction           *)

Key(D, h) == <<PosOf(D, D.H[h].o), PosOf(D, D.H[TwinOf(D, h)].o), D.H[h].s, D.H[TwinOf(D, h)].s>>
KeyNow(D, h) == <<PosOf(D, org[h]), PosOf(D, org[TwinOf(D, h)]), D.H[h].s, D.H[TwinOf(D, h)].s>>

UsedVertices(D) == {org[h] : h \in alive}

Positions(D) == {D.V[v].c : v \in 1..Len(D.V)}

(* vertices stay, in the positions they had; isolated ones cannot occur *)
SameVertices(D, D1) == Positions(D1) = {PosOf(D, v) : v \in UsedVertices(D)}
VerticesDistinct(D1) == Cardinality(Positions(D1)) = Len(D1.V)
SameEdges(D, D1) ==
  /\ {Key(D1, h) : h \in Halves(D1)} = {KeyNow(D, h) : h \in alive}
  /\ Cardinality(Halves(D1)) = Cardinality(alive)
SameNext(D, D1) ==
  {<<Key(D1, h), Key(D1, D1.H[h].n)>> : h \in {h \in Halves(D1) : D1.H[h].s # 0 /\ IsHalf(D1, D1.H[h].n)}} =
  {<<KeyNow(D, h), KeyNow(D, nxt[h])>> : h \in {h \in alive : D.H[h].s # 0 /\ nxt[h] \in alive}}
FirstOk(D1) == \A i \in Sites(D1) : IsHalf(D1, D1.cells[i].f) => D1.H[D1.cells[i].f].s = i

NoZeroLength(D1) == \A h \in Halves(D1) : PosOf(D1, D1.H[h].o) # PosOf(D1, D1.H[TwinOf(D1, h)].o)

(* corners of the cells, repetitions removed; compared from the same corner  *)
Corners(D, i) == {PosOf(D, v) : v \in Range(D.cells[i].vv)}
SameCells(D, D1) == \A i \in Sites(D) : Corners(D, i) = Corners(D1, i) /\ BNear(D.cells[i].a, D1.cells[i].a, AreaTol(D))

WellLinked(D) == TwinOk(D) /\ OwnersOk(D) /\ LinksOk(D) /\ NextStartsAtEnd(D) /\ NextInCell(D) /\ LoopOk(D) /\ ConnectedOk(D) /\ OriginsListed(D)
=============================================================================
