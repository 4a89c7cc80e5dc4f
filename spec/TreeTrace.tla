------------------------------ MODULE TreeTrace ------------------------------
(* Judges recorded trees. A run is a history (ops) with the trees recorded after its steps; the expected content is computed by TreeHistory,
   or given (keys) for a tree that was built directly.                                                                               *)
EXTENDS TreeHistory, TLC, Json, IOUtils, SequencesExt

VARIABLES run, step, keys
Data == JsonDeserialize(IOEnv.TRACE)
Runs == Data.runs
vars == <<run, step, keys>>

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Report(D, ks) == \A c \in Failures([n |-> Data.trees[D].n, q |-> Data.trees[D].q, f |-> Data.trees[D].f, fv |-> Data.trees[D].fv,
                                    lv |-> Data.trees[D].lv, mn |-> Data.trees[D].mn, mx |-> Data.trees[D].mx, keys |-> ks]) :
                    PrintT(<<"FAIL", run, c, step>>)

Init == run \in DOMAIN Runs /\ step = 0 /\ keys = {}
Op == LET o == Runs[run].ops[step + 1]
          K2 == IF o[1] = 1 THEN Insert(keys, o[2]) ELSE Delete(keys, o[2])
      IN /\ step < Len(Runs[run].ops)
         /\ keys' = K2
         /\ (IF Runs[run].obs[step + 1] = 0 THEN TRUE ELSE Report(Runs[run].obs[step + 1], Sorted(K2)))
         /\ step' = step + 1
         /\ UNCHANGED run
Finish == /\ step = Len(Runs[run].ops)
          /\ (IF Runs[run].ops = <<>> THEN Report(Runs[run].obs[1], Runs[run].keys) ELSE TRUE)
          /\ PrintT(<<"DONE", run>>)
          /\ step' = step + 1
          /\ UNCHANGED <<run, keys>>
Spec == Init /\ [][Op \/ Finish]_vars
=============================================================================
