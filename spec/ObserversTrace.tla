--------------------------- MODULE ObserversTrace ---------------------------
(* Checks recorded deliveries against Observers.  A run has ops (attach, detach, create) on its diagrams, scripts of its observers, and the
   log of all updates: records with o observer, d sending diagram (0: something else), k kind, a: payload right, s: number of the snapshot of
   the diagram taken by the first observer (snaps), i: number of the operation going on.                                             *)
EXTENDS Observers, TLC, Json, IOUtils

VARIABLES run, op, at, phase, att, got, tally
vars == <<run, op, at, phase, att, got, tally>>
Data == JsonDeserialize(IOEnv.TRACE)
R == Data.runs[run]
Log == R.log

Fail(c) == PrintT(<<"FAIL", run, c, at>>)
Stop == /\ PrintT(<<"DONE", run>>) /\ phase' = "stop" /\ UNCHANGED <<run, op, at, att, got, tally>>
Bad(c) == Fail(c) /\ Stop

Zero == [steps |-> 0, sites |-> {}, circles |-> 0, events |-> {}]
Init == /\ run \in DOMAIN Data.runs /\ op = 1 /\ at = 1 /\ phase = "idle" /\ tally = Zero
        /\ att = [d \in 1 .. Data.runs[run].nd |-> <<>>]
        /\ got = [o \in 1 .. Data.runs[run].no |-> 0]

Cur == R.ops[op]
(* an update during the current operation is still in the log *)
Pending == at <= Len(Log) /\ Log[at].i = op

Attach == /\ Cur.op = "attach" /\ ~Pending /\ att' = [att EXCEPT ![Cur.d] = Append(@, Cur.o)] /\ op' = op + 1 /\ UNCHANGED <<run, at, phase, got, tally>>
Detach == /\ Cur.op = "detach" /\ ~Pending /\ att' = [att EXCEPT ![Cur.d] = IF Has(@, Cur.o) THEN Remove(@, Cur.o) ELSE @]
          /\ op' = op + 1 /\ UNCHANGED <<run, at, phase, got, tally>>
Begin == /\ Cur.op = "create" /\ phase = "idle" /\ phase' = "sweeping" /\ tally' = Zero /\ UNCHANGED <<run, op, at, att, got>>

(* what the diagram must look like when message k arrives; T: the tally including this message *)
StateFailures(k, s, T) ==
    IF s = 0 THEN {} ELSE
    LET D == R.snaps[s] IN
    CASE k = "STEP" ->
           (IF D.kind = "s" /\ (D.site = 0 \/ D.site \in tally.sites) THEN {"C10.site"} ELSE {}) \cup
           (IF D.ev \in tally.events THEN {"C10.repeated"} ELSE {}) \cup
           (IF D.line = 1 THEN {} ELSE {"C10.line"}) \cup
           (IF D.in = 1 THEN {} ELSE {"C10.state"}) \cup
           (IF D.nv = T.circles THEN {} ELSE {"C10.vertices"})
      [] k = "SWEEP" -> (IF D.left = 0 THEN {} ELSE {"C10.left"}) \cup (IF T.sites = 1 .. D.n THEN {} ELSE {"C10.sites"}) \cup
                        (IF D.nv = T.circles THEN {} ELSE {"C10.vertices"})
      [] k = "VORONOI" -> IF D.fin = 1 THEN {} ELSE {"C10.finished"}
      [] OTHER -> {}

(* the diagram sends a message: as told by the delivery to its first observer *)
Message ==
    /\ phase \in {"sweeping", "clipping"}
    /\ Pending
    /\ LET e == Log[at]
           q == att[Cur.d]
           n == Len(q)
           T == IF e.k # "STEP" \/ e.s = 0 THEN tally
                ELSE LET D == R.snaps[e.s] IN
                     [steps |-> tally.steps + 1, sites |-> IF D.kind = "s" THEN tally.sites \cup {D.site} ELSE tally.sites,
                      circles |-> tally.circles + (IF D.kind = "c" THEN 1 ELSE 0), events |-> tally.events \cup {D.ev}]
           order == at + n - 1 <= Len(Log) /\ \A j \in 1 .. n : Log[at + j - 1].o = q[j] /\ Log[at + j - 1].i = op
           same == \A j \in 1 .. n : Log[at + j - 1].k = e.k
           sender == \A j \in 1 .. n : Log[at + j - 1].d = Cur.d
           text == \A j \in 1 .. n : Log[at + j - 1].a = 1
       IN IF n = 0 THEN Bad("C10.nobody")
          ELSE IF e.k \notin Allowed(phase) THEN Bad("C10.sequence")
          ELSE IF ~order THEN Bad("C10.receivers")
          ELSE IF ~same THEN Bad("C10.receivers")
          ELSE /\ (IF sender THEN TRUE ELSE Fail("C10.sender"))
               /\ (IF text THEN TRUE ELSE Fail("C10.payload"))
               /\ \A c \in StateFailures(e.k, e.s, T) : Fail(c)
               /\ LET r == Deliver(q, q, got, R.scripts) IN att' = [att EXCEPT ![Cur.d] = r[1]] /\ got' = r[2]
               /\ tally' = T
               /\ phase' = After(phase, e.k)
               /\ op' = IF e.k = "VORONOI" THEN op + 1 ELSE op
               /\ at' = at + n
               /\ UNCHANGED run

(* the creation returned although messages are missing *)
Missing == /\ phase \in {"sweeping", "clipping"} /\ ~Pending
           /\ IF att[Cur.d] = <<>>
              THEN /\ phase' = "idle" /\ op' = op + 1 /\ UNCHANGED <<run, at, att, got, tally>>
              ELSE Bad("C10.missing")
End == /\ op > Len(R.ops) /\ phase = "idle"
       /\ IF at <= Len(Log) THEN Bad("C10.extra") ELSE Stop

Step == \/ op <= Len(R.ops) /\ (Attach \/ Detach \/ Begin \/ Message \/ Missing \/
                                (phase = "idle" /\ Pending /\ Cur.op # "create" /\ Bad("C10.extra")))
        \/ End
Next == phase # "stop" /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
