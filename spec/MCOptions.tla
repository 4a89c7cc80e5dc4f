----------------------------- MODULE MCOptions -----------------------------
(* Worlds of observers with options, and short message streams delivered to them.  Emits each world with what every observer has to draw for
   each kind of message, for the replay on the real observers.                                                                      *)
EXTENDS Options, TLC, Json, SequencesExt

CONSTANTS MaxObs, MaxFlags, MaxMsgs, Emitting
VARIABLES obs, stream, cnt, calls
vars == <<obs, stream, cnt, calls>>

Base(t, s, c, r, x) == [type |-> t, steps |-> s, clip |-> c, result |-> r, text |-> x, on |-> {}, off |-> {}]
Bases == {Base("voronoi", s, c, r, FALSE) : s, c, r \in BOOLEAN} \cup {Base("tree", s, FALSE, r, x) : s, r, x \in BOOLEAN}
         \cup {Base("debug", FALSE, FALSE, FALSE, FALSE)}

Init == obs = <<>> /\ stream = <<>> /\ cnt = <<>> /\ calls = <<>>
Create == /\ stream = <<>> /\ Len(obs) < MaxObs
          /\ \E b \in Bases : obs' = Append(obs, b) /\ cnt' = Append(cnt, Fresh)
          /\ UNCHANGED <<stream, calls>>
(* settings are given on creation: they extend those of the last observer *)
Set == /\ stream = <<>> /\ obs # <<>>
       /\ LET o == obs[Len(obs)] IN
          /\ o.type = "voronoi"
          /\ Cardinality(o.on \cup o.off) < MaxFlags
          /\ \E f \in Flags \ (o.on \cup o.off) : \E v \in BOOLEAN :
               obs' = [obs EXCEPT ![Len(obs)] = IF v THEN [o EXCEPT !.on = @ \cup {f}] ELSE [o EXCEPT !.off = @ \cup {f}]]
       /\ UNCHANGED <<stream, cnt, calls>>
(* an incoming message reaches each observer in turn *)
RECURSIVE CallsFor(_, _)
CallsFor(i, kind) == IF i > Len(obs) THEN <<>>
                     ELSE (IF Selected(obs[i], kind) THEN <<[o |-> i, n |-> cnt[i].n, at |-> Len(stream) + 1]>> ELSE <<>>) \o CallsFor(i + 1, kind)
Message == /\ obs # <<>> /\ Len(stream) < MaxMsgs
           /\ \E kind \in Kinds :
                /\ stream' = Append(stream, kind)
                /\ calls' = calls \o CallsFor(1, kind)
                /\ cnt' = [i \in DOMAIN obs |-> Count(obs[i], cnt[i], kind)]
           /\ UNCHANGED obs
Next == Create \/ Set \/ Message
Spec == Init /\ [][Next]_vars

(* every observer gets what it selected, once, and counts it; what others are set to has no influence *)
CountsRight == \A i \in DOMAIN obs :
    LET mine == SelectSeq(stream, LAMBDA k : Selected(obs[i], k))
        got == SelectSeq(calls, LAMBDA c : c.o = i)
    IN /\ Len(got) = Len(mine)
       /\ \A j \in DOMAIN got : stream[got[j].at] = mine[j]
       /\ obs[i].type = "debug" => cnt[i] = Fresh
       /\ obs[i].type # "debug" => cnt[i] = [n |-> Len(mine), m |-> mine] /\ \A j \in DOMAIN got : got[j].n = j - 1
TreeResultOnlyWithoutSteps == \A i \in DOMAIN obs : obs[i].type = "tree" /\ obs[i].steps => ~Selected(obs[i], "VORONOI")
OwnSettingsWin == \A i \in DOMAIN obs : \A k \in Kinds : obs[i].on \subseteq Drawn(obs[i], k) /\ obs[i].off \cap Drawn(obs[i], k) = {}

World == [i \in DOMAIN obs |-> [type |-> obs[i].type, steps |-> obs[i].steps, clip |-> obs[i].clip, result |-> obs[i].result, text |-> obs[i].text,
                                on |-> SetToSeq(obs[i].on), off |-> SetToSeq(obs[i].off),
                                draw |-> [k \in {"STEP", "SWEEP", "VORONOI"} |-> SetToSeq(Drawn(obs[i], k))]]]
Emit == (Emitting /\ obs # <<>> /\ stream = <<>>) => PrintT(<<"HIST", ToJson(World)>>)
=============================================================================
