---------------------------- MODULE CleanupTrace -----------------------------
(* Recorded pairs: the same input with zero-length edge removal off (off)    *)
(* and on (on).  Cleanup contracts the first in any order (all orders while  *)
(* there are few zero-length edges) and has to arrive at the second.         *)
EXTENDS Cleanup, Json, IOUtils

VARIABLES run, phase
Data == JsonDeserialize(IOEnv.TRACE)
Off == Data.runs[run].off
On == Data.runs[run].on
tvars == <<cvars, run, phase>>

If(ok, c) == IF ok THEN {} ELSE {c}
Say(fs) == \A f \in fs : PrintT(<<"FAIL", run, f>>)

Init == /\ run \in 1..Len(Data.runs) /\ phase = "recorded"
        /\ alive = {} /\ org = <<>> /\ nxt = <<>> /\ prv = <<>> /\ fst = <<>>

(* the recorded structures are structures at all *)
Usable == TwinOk(Off) /\ TwinOk(On) /\ OriginsListed(Off) /\ OriginsListed(On)
Load ==
  /\ phase = "recorded"
  /\ Say(If(Usable, "C04.structure"))
  /\ Usable => Say(If(WellLinked(Off), "C04.links_off") \union If(WellLinked(On), "C04.links_on") \union
                   If(TargetsOk(Off) /\ TargetsOk(On), "C04.targets") \union
                   If(NoZeroLength(On), "C04.zerolength") \union If(VerticesDistinct(On) /\ Apart(On), "C04.coincide"))
  /\ PrintT(<<"ZERO", run, IF Usable THEN Cardinality({h \in Halves(Off) : PosOf(Off, Off.H[h].o) = PosOf(Off, Off.H[TwinOf(Off, h)].o)}) \div 2 ELSE 0>>)
  /\ IF Usable /\ WellLinked(Off)
     THEN /\ phase' = "contracting"
          /\ alive' = Halves(Off)
          /\ org' = [h \in Halves(Off) |-> Off.H[h].o]
          /\ nxt' = [h \in Halves(Off) |-> Off.H[h].n]
          /\ prv' = [h \in Halves(Off) |-> Off.H[h].p]
          /\ fst' = [i \in Sites(Off) |-> Off.cells[i].f]
     ELSE /\ phase' = "judged" /\ UNCHANGED cvars /\ PrintT(<<"DONE", run>>)
  /\ UNCHANGED run

ManyOrders == 3
Step ==
  /\ phase = "contracting"
  /\ \E h \in Zero(Off) :
       /\ Cardinality(Zero(Off)) > ManyOrders => \A g \in Zero(Off) : h <= g
       /\ Contract(Off, h)
  /\ UNCHANGED <<run, phase>>

Judge ==
  /\ phase = "contracting" /\ Contracted(Off)
  /\ Say(If(StillConsistent(Off) /\ SameLength(Off), "C04.contraction") \union
         If(SameVertices(Off, On), "C04.vertices") \union
         If(SameEdges(Off, On), "C04.edges") \union
         If(SameNext(Off, On), "C04.next") \union
         If(FirstOk(On), "C04.first") \union
         If(SameCells(Off, On), "C04.cells"))
  /\ PrintT(<<"DONE", run>>)
  /\ phase' = "judged"
  /\ UNCHANGED <<cvars, run>>

Spec == Init /\ [][Load \/ Step \/ Judge]_tvars
=============================================================================
