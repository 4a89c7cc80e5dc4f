------------------------------ MODULE Subject ------------------------------
(* Subjects, observers and notification (property C18; used by Observers.tla for the messages of a diagram).
   Parents have observers of their own; a child inherits those of at most one parent.  Observers may react to an update by attaching,
   detaching or notifying themselves (re-entrancy), which is modelled by their behaviour.                                          *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Parents, Children, Observers

Behaviours == {"plain", "drop", "again", "pull", "push", "echo"}

(* state: obs[p] attachments of p in order, par[c] parent of c (0: none), fired: observers that reacted already, log: updates so far *)
Start == [obs |-> [p \in Parents |-> <<>>], par |-> [c \in Children |-> 0], fired |-> {}, log |-> <<>>]

Root(S, s) == IF s \in Parents THEN s ELSE S.par[s]
View(S, s) == IF Root(S, s) = 0 THEN <<>> ELSE S.obs[Root(S, s)]

Attach(S, p, o) == [S EXCEPT !.obs[p] = Append(@, o)]

Attached(S, p, o) == \E i \in DOMAIN S.obs[p] : S.obs[p][i] = o
FirstAt(q, o) == CHOOSE i \in DOMAIN q : q[i] = o /\ \A j \in 1 .. i - 1 : q[j] # o
Detach(S, p, o) == LET q == S.obs[p] IN [S EXCEPT !.obs[p] = [i \in 1 .. Len(q) - 1 |-> IF i < FirstAt(q, o) THEN q[i] ELSE q[i + 1]]]

Inherit(S, c, p) == [S EXCEPT !.par[c] = p]

Other(o) == IF o + 1 \in Observers THEN o + 1 ELSE CHOOSE x \in Observers : \A y \in Observers : x <= y

RECURSIVE Notify(_, _, _, _), DeliverTo(_, _, _, _, _)
(* what observer o does when it receives message m from r *)
React(S, beh, o, r, m) ==
    IF o \in S.fired THEN S
    ELSE LET F == [S EXCEPT !.fired = @ \cup {o}] IN
         CASE beh[o] = "drop"  -> IF Attached(S, r, o) THEN Detach(F, r, o) ELSE F
           [] beh[o] = "again" -> Attach(F, r, o)
           [] beh[o] = "pull"  -> Attach(F, r, Other(o))
           [] beh[o] = "push"  -> IF Attached(S, r, Other(o)) THEN Detach(F, r, Other(o)) ELSE F
           [] beh[o] = "echo"  -> Notify(F, beh, r, m + 1)
           [] OTHER            -> S

(* everyone attached when the notification starts gets the message, whatever happens on the way *)
DeliverTo(S, beh, q, r, m) ==
    IF q = <<>> THEN S
    ELSE LET L == [S EXCEPT !.log = Append(@, <<Head(q), r, m>>)]
         IN DeliverTo(React(L, beh, Head(q), r, m), beh, Tail(q), r, m)

Notify(S, beh, s, m) == IF Root(S, s) = 0 THEN S ELSE DeliverTo(S, beh, S.obs[Root(S, s)], Root(S, s), m)
=============================================================================
