----------------------------- MODULE MCSubject -----------------------------
(* Enumerates histories of operations with the outcome Subject.tla prescribes; every complete history is printed and replayed on the real
   Subject class by the harness.                                                                                                     *)
EXTENDS Subject, TLC, Json

CONSTANTS Depth, Mixes   \* Mixes: set of behaviour assignments to explore (0: all)

VARIABLES beh, S, hist
vars == <<beh, S, hist>>

Subjects == Parents \cup Children

Lists(T) == [s \in Subjects |-> View(T, s)]
Done(op, s, x, T) == /\ S' = T
                     /\ hist' = Append(hist, [op |-> op, s |-> s, x |-> x, log |-> SubSeq(T.log, Len(S.log) + 1, Len(T.log)), lists |-> Lists(T)])
                     /\ UNCHANGED beh

DoAttach == \E p \in Parents, o \in Observers : Len(S.obs[p]) < 4 /\ Done("attach", p, o, Attach(S, p, o))
DoDetach == \E p \in Parents, o \in Observers : Attached(S, p, o) /\ Done("detach", p, o, Detach(S, p, o))
DoInherit == \E c \in Children, p \in Parents : Done("inherit", c, p, Inherit(S, c, p))
DoNotify == \E s \in Subjects : Done("notify", s, 10 * (Len(hist) + 1), Notify(S, beh, s, 10 * (Len(hist) + 1)))

Init == beh \in Mixes /\ S = Start /\ hist = <<>>
Next == Len(hist) < Depth /\ (DoAttach \/ DoDetach \/ DoInherit \/ DoNotify)
Spec == Init /\ [][Next]_vars

AllMixes == [Observers -> Behaviours]

(* ---- the guarantees, stated independently of the recursive definition above ---- *)
Last == hist[Len(hist)]
Count(q, P(_)) == Cardinality({i \in DOMAIN q : P(q[i])})
(* every attachment present when a notification starts leads to exactly one update with its message *)
ExactlyOnce == [][Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "notify" =>
                    LET h == hist'[Len(hist')]
                        was == View(S, h.s)
                        got == SelectSeq(h.log, LAMBDA e : e[3] = h.x)
                    IN [i \in DOMAIN got |-> got[i][1]] = was]_vars
(* only notifications update anyone, and the sender is never a child *)
OnlyNotify == \A i \in DOMAIN hist : hist[i].op # "notify" => hist[i].log = <<>>
SenderIsParent == \A i \in DOMAIN S.log : S.log[i][2] \in Parents
ChildSeesParent == \A c \in Children : S.par[c] # 0 => View(S, c) = S.obs[S.par[c]]

Emit == Len(hist) = Depth /\ hist[Depth].log # <<>> => PrintT(<<"HIST", ToJson([beh |-> beh, hist |-> hist])>>)
=============================================================================
