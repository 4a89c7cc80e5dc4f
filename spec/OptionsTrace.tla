---------------------------- MODULE OptionsTrace ----------------------------
(* Checks recorded callbacks against Options.  A run has obs (the observers in order of attachment), stream (all messages of the creations, as
   received by an observer attached before them), log: the callbacks in order, each with o observer, n its n_messages and m its messages at
   that time, at: number of messages sent so far, ok: the failures found when comparing what was drawn or passed; fin: counters at the end;
   same: the diagrams equal those made without observers; clean: dictionaries given as settings and the presets are unchanged.
   For a TreeObserver tree: labels and children of the status tree in preorder, and dot: node labels and edges (pairs) of the graph, or
   lines: depth and label of the lines of text.                                                                                     *)
EXTENDS Options, TLC, Json, IOUtils

VARIABLES run, msg, who, at, cnt, state
vars == <<run, msg, who, at, cnt, state>>
Data == JsonDeserialize(IOEnv.TRACE)
R == Data.runs[run]

Fail(c) == PrintT(<<"FAIL", run, c, at>>)
Stop == /\ PrintT(<<"DONE", run>>) /\ state' = "stop" /\ UNCHANGED <<run, msg, who, at, cnt>>
Bad(c) == Fail(c) /\ Stop

Init == /\ run \in DOMAIN Data.runs /\ msg = 1 /\ who = 1 /\ at = 1 /\ state = "go"
        /\ cnt = [o \in DOMAIN Data.runs[run].obs |-> Fresh]

(* a drawn graph shows the tree: nodes in any order, numbered; the same labels and children *)
RECURSIVE Shows(_, _, _, _)
Shows(T, i, D, k) ==
    /\ D.labels[k] = T[i].label
    /\ LET kids == (IF T[i].l # 0 THEN <<T[i].l>> ELSE <<>>) \o (IF T[i].r # 0 THEN <<T[i].r>> ELSE <<>>)
           drawn == SelectSeq(D.edges, LAMBDA e : e[1] = k)
       IN Len(drawn) = Len(kids) /\ \A j \in DOMAIN kids : Shows(T, kids[j], D, drawn[j][2])
(* T[i].label must agree with what the label of a node is: the names of the arc's site or of the breakpoint's sites *)
GraphRight(e) == /\ Len(e.dot.labels) = Len(e.tree) /\ Len(e.dot.edges) = Len(e.tree) - 1
                 /\ \A k \in DOMAIN e.dot.edges : e.dot.edges[k][1] > 0 /\ e.dot.edges[k][2] > 0
                 /\ \E k \in DOMAIN e.dot.labels : (\A j \in DOMAIN e.dot.edges : e.dot.edges[j][2] # k) /\ Shows(e.tree, 1, e.dot, k)

(* a text shows the tree lying on its side: the right subtree first, indented by depth *)
RECURSIVE Lying(_, _, _)
Lying(T, i, d) == (IF T[i].r # 0 THEN Lying(T, T[i].r, d + 1) ELSE <<>>) \o <<<<d, T[i].label>>>> \o (IF T[i].l # 0 THEN Lying(T, T[i].l, d + 1) ELSE <<>>)

Callback ==
    LET o == R.obs[who]
        kind == R.stream[msg]
        c == cnt[who]
    IN IF ~Selected(o, kind)
       THEN /\ who' = who + 1 /\ UNCHANGED <<run, msg, at, cnt, state>>
       ELSE IF at > Len(R.log) \/ R.log[at].o # who \/ R.log[at].at # msg
            THEN Bad(IF at <= Len(R.log) /\ R.log[at].o = who /\ R.log[at].at < msg THEN "C11.extra" ELSE "C11.missing")
            ELSE LET e == R.log[at] IN
                 /\ (IF o.type = "debug" \/ (e.n = c.n /\ e.m = c.m) THEN TRUE ELSE Fail("C11.count"))
                 /\ (IF e.ok = <<>> THEN TRUE ELSE Fail("C11." \o e.ok[1]))
                 /\ (IF o.type # "tree" THEN TRUE
                     ELSE IF o.text THEN (IF e.lines = Lying(e.tree, 1, 0) THEN TRUE ELSE Fail("C11.text"))
                     ELSE IF GraphRight(e) THEN TRUE ELSE Fail("C11.graph"))
                 /\ cnt' = [cnt EXCEPT ![who] = Count(o, c, kind)]
                 /\ at' = at + 1 /\ who' = who + 1 /\ UNCHANGED <<run, msg, state>>
NextMessage == /\ msg' = msg + 1 /\ who' = 1 /\ UNCHANGED <<run, at, cnt, state>>
End == IF at <= Len(R.log) THEN Bad("C11.extra")
       ELSE /\ (IF \A o \in DOMAIN R.obs : R.obs[o].type = "debug" \/ (R.fin[o].n = cnt[o].n /\ R.fin[o].m = cnt[o].m) THEN TRUE ELSE Fail("C11.count"))
            /\ (IF R.same = 1 THEN TRUE ELSE Fail("C11.diagram"))
            /\ (IF R.clean = 1 THEN TRUE ELSE Fail("C11.settings"))
            /\ Stop
Next == /\ state = "go"
        /\ IF msg > Len(R.stream) THEN End ELSE IF who <= Len(R.obs) THEN Callback ELSE NextMessage
Spec == Init /\ [][Next]_vars
=============================================================================
