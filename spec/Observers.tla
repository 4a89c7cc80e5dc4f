----------------------------- MODULE Observers -----------------------------
(* The messages a diagram sends while it is created, and who receives them (property C10).
   A diagram sends DEBUG and STEP messages, one SWEEP, DEBUGs and one VORONOI for each creation.  Who receives a message is decided when it is sent; observers
   may attach and detach themselves and others to the sender on the way.
   att[d]: the observers of diagram d in order of attachment; got[o]: how many updates observer o has had; script[o]: what it does at which
   of its updates: a sequence of <<n, "attach" or "detach", observer>>.                                                              *)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"DEBUG", "STEP", "SWEEP", "VORONOI"}

(* phases of a creation, and the messages possible in each *)
Allowed(phase) == CASE phase = "idle" -> {}
                    [] phase = "sweeping" -> {"DEBUG", "STEP", "SWEEP"}
                    [] phase = "clipping" -> {"DEBUG", "VORONOI"}
                    [] OTHER -> {}
After(phase, kind) == CASE kind = "SWEEP" -> "clipping" [] kind = "VORONOI" -> "idle" [] OTHER -> phase

Remove(q, o) == LET i == CHOOSE i \in DOMAIN q : q[i] = o /\ \A j \in 1 .. i - 1 : q[j] # o
                IN [j \in 1 .. Len(q) - 1 |-> IF j < i THEN q[j] ELSE q[j + 1]]
Has(q, o) == \E i \in DOMAIN q : q[i] = o

(* one update of observer o: it counts it and does what its script says *)
Apply(q, op, o) == IF op = "attach" THEN Append(q, o) ELSE IF Has(q, o) THEN Remove(q, o) ELSE q
RECURSIVE Act(_, _, _)
Act(q, script, n) == IF script = <<>> THEN q
                     ELSE Act(IF Head(script)[1] = n THEN Apply(q, Head(script)[2], Head(script)[3]) ELSE q, Tail(script), n)

RECURSIVE Deliver(_, _, _, _)
(* list: who is to receive the message; q: the list of attached observers while that goes on. Result <<attached, counts>> *)
Deliver(list, q, got, scripts) ==
    IF list = <<>> THEN <<q, got>>
    ELSE LET o == Head(list)
             n == got[o] + 1
         IN Deliver(Tail(list), Act(q, scripts[o], n), [got EXCEPT ![o] = n], scripts)
=============================================================================
