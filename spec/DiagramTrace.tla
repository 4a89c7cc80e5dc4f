---------------------------- MODULE DiagramTrace -----------------------------
(* Judges finished diagrams recorded from the implementation.  Each run is   *)
(* one behaviour: recorded -> judged.  The verdict names the clauses of      *)
(* Diagram that fail.                                                        *)
EXTENDS Diagram, Json, IOUtils

VARIABLES run, phase
Data == JsonDeserialize(IOEnv.TRACE)
Want == Range(Data.want)

Init == run \in 1..Len(Data.runs) /\ phase = "recorded"
Judge == /\ phase = "recorded"
         /\ \A c \in Failures(Data.runs[run], Want) : PrintT(<<"FAIL", run, c>>)
         /\ PrintT(<<"DONE", run>>)
         /\ phase' = "judged" /\ UNCHANGED run
Spec == Init /\ [][Judge]_<<run, phase>>
=============================================================================
