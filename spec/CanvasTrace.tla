----------------------------- MODULE CanvasTrace -----------------------------
(* Checks what was drawn against Canvas.  A run is a sequence of views; a view has the diagram D at that moment, cmds: for each command the
   command and what it added to the canvas, lim: the limits afterwards, and clean: 1 if the diagram is still what it was.  Each command is a
   step; the canvas only grows.                                                                                                     *)
EXTENDS Canvas, Json, IOUtils

VARIABLES run, view, cmd
vars == <<run, view, cmd>>
Data == JsonDeserialize(IOEnv.TRACE)
R == Data.runs[run]
V == R.views[view]

Fail(c, d) == PrintT(<<"FAIL", run, "C19." \o c, view, d>>)
Init == run \in DOMAIN Data.runs /\ view = 1 /\ cmd = 1

Command == /\ view <= Len(R.views) /\ cmd <= Len(V.cmds)
           /\ LET c == V.cmds[cmd] C == Window(V.D, c.o) IN
              /\ \A f \in Failures(V.D, C, Drawn(V.D, C, c.o), c.got) : Fail(f[1], <<cmd, c.o.k, f[2]>>)
              /\ (IF c.removed = 0 THEN TRUE ELSE Fail("removed", <<cmd, c.o.k>>))
              /\ (IF c.chain = 1 THEN TRUE ELSE Fail("chain", <<cmd, c.o.k>>))
              /\ (IF c.clean = 1 THEN TRUE ELSE Fail("changed", <<cmd, c.o.k>>))
           /\ cmd' = cmd + 1 /\ UNCHANGED <<run, view>>
Limits == /\ view <= Len(R.views) /\ cmd = Len(V.cmds) + 1
          /\ LET C == Window(V.D, [k |-> "all", l |-> <<>>, level |-> 0]) w == <<C.minx, C.maxx, C.miny, C.maxy>> IN
             (IF \A i \in 1 .. 4 : Near(V.lim[i], w[i], Tol) THEN TRUE ELSE Fail("limits", <<>>))
          /\ view' = view + 1 /\ cmd' = 1 /\ UNCHANGED run
Done == /\ view = Len(R.views) + 1 /\ cmd = 1
        /\ (IF R.same = 1 THEN TRUE ELSE Fail("result", <<>>))
        /\ PrintT(<<"DONE", run>>) /\ cmd' = 2 /\ UNCHANGED <<run, view>>
Spec == Init /\ [][Command \/ Limits \/ Done]_vars
=============================================================================
