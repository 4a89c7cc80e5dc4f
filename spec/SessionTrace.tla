---------------------------- MODULE SessionTrace ----------------------------
(* Checks recorded sessions against Session.  A run has the world, the log of what happened and fresh: the digests of diagrams created on
   fresh objects in a fresh process, as records [key, n].  A log record has k ("begin", "end", "abort", "read"), d, i, and what the finished
   diagrams look like at that moment: snap[d] (0: not looked at) and kept[n], the lists that were kept from the n-th finished creation.      *)
EXTENDS Session, TLC, Json, IOUtils

VARIABLES run, at, st
vars == <<run, at, st>>
Data == JsonDeserialize(IOEnv.TRACE)
R == Data.runs[run]
Fresh(key) == LET F == {n \in DOMAIN R.fresh : R.fresh[n].key = key} IN R.fresh[CHOOSE n \in F : TRUE].n

Init == run \in DOMAIN Data.runs /\ at = 1 /\ st = Blank(Data.runs[run].world)

After(e) == CASE e.k = "begin" -> Begun(st, e.d, e.i)
              [] e.k = "end" -> Finished(R.world, st)
              [] e.k = "abort" -> Aborted(st)
              [] OTHER -> st
Nested(e) == CASE e.k = "begin" -> ~Busy(st, e.d)
               [] e.k \in {"end", "abort"} -> st.stack # <<>> /\ Top(st).d = e.d
               [] OTHER -> TRUE
Wrong(e, s) ==
    {<<"C13.result", d>> : d \in {d \in DOMAIN s.res : d = e.d /\ e.k = "end" /\ s.res[d] # NoKey /\ e.snap[d] # Fresh(s.res[d])}} \cup
    {<<"C13.changed", d>> : d \in {d \in DOMAIN s.res : ~(d = e.d /\ e.k = "end") /\ s.res[d] # NoKey /\ e.snap[d] # Fresh(s.res[d])}} \cup
    {<<"C13.kept", n>> : n \in {n \in DOMAIN s.kept : n <= Len(e.kept) /\ ~(e.k = "end" /\ n = Len(s.kept)) /\ e.kept[n] # Fresh(s.kept[n])}}

Step == /\ at <= Len(R.log)
        /\ LET e == R.log[at] s == After(e) IN
           /\ Assert(Nested(e), <<"the log is not a session", run, at>>)
           /\ Assert(Len(e.kept) = Len(s.kept), <<"kept results", run, at>>)
           /\ \A f \in Wrong(e, s) : PrintT(<<"FAIL", run, f[1], at, f[2]>>)
           /\ st' = s
        /\ at' = at + 1 /\ UNCHANGED run
Done == /\ at = Len(R.log) + 1 /\ PrintT(<<"DONE", run>>) /\ at' = at + 1 /\ UNCHANGED <<run, st>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
