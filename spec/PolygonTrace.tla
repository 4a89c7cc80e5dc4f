---------------------------- MODULE PolygonTrace -----------------------------
(* Judges recorded polygons: corners as given, as stored, bounds, and answers of inside.                                                    *)
EXTENDS Relate, TLC, Json, IOUtils

VARIABLES run, n
Data == JsonDeserialize(IOEnv.TRACE)
R == Data.runs[run]

If(ok, c) == IF ok THEN {} ELSE {c}
Judge(o) == If(CycleOf(R.given, o.points), "C16.cycle") \union
            If(o.coords = o.points, "C16.coordinates") \union
            If(o.bounds = Bounds(R.given), "C16.bounds") \union
            If(CycleOf(R.given, o.points) => \A k \in DOMAIN R.queries : InsideRight(o.points, R.queries[k], o.answers[k]), "C16.inside")

Init == run \in DOMAIN Data.runs /\ n = 0
Next == /\ n < Len(R.variants)
        /\ \A c \in Judge(R.variants[n + 1]) : PrintT(<<"FAIL", run, c, n + 1>>)
        /\ n' = n + 1 /\ UNCHANGED run
Done == n = Len(R.variants) /\ PrintT(<<"DONE", run>>) /\ n' = n + 1 /\ UNCHANGED run
Spec == Init /\ [][Next \/ Done]_<<run, n>>
=============================================================================
