----------------------------- MODULE RelateTrace -----------------------------
(* Judges recorded diagrams of related inputs.  A run has tag (property), base: the diagram of an input, and others: for each variant its   *)
(* diagram d, the map, the permutation perm, and texts recorded from it: given/listed (coordinates of the sites), before/after (the input   *)
(* object).  Each variant is one step.                                                                                                      *)
EXTENDS Relate, TLC, Json, IOUtils

VARIABLES run, n
Data == JsonDeserialize(IOEnv.TRACE)
R == Data.runs[run]

Init == run \in DOMAIN Data.runs /\ n = 0
Compare == /\ n < Len(R.others)
           /\ LET o == R.others[n + 1] IN
              /\ Assert(Mapped(o.map, R.base, o.d, o.perm), <<"the input of a variant is not what it should be", run, n + 1>>)
              /\ \A c \in Failures(o.map, R.base, o.d, o.perm, R.tag) : PrintT(<<"FAIL", run, c, n + 1>>)
              /\ (IF o.listed = o.given THEN TRUE ELSE PrintT(<<"FAIL", run, R.tag \o ".sites", n + 1>>))
              /\ (IF o.after = o.before THEN TRUE ELSE PrintT(<<"FAIL", run, R.tag \o ".input", n + 1>>))
           /\ n' = n + 1 /\ UNCHANGED run
Done == n = Len(R.others) /\ PrintT(<<"DONE", run>>) /\ n' = n + 1 /\ UNCHANGED run
Spec == Init /\ [][Compare \/ Done]_<<run, n>>
=============================================================================
