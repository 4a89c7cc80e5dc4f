------------------------------ MODULE Session ------------------------------
(* What a program sees of several diagrams, created one after another, inside each other (from an observer) or aborted by an observer
   (property C13).  The meaning of a creation is a function of its own input alone: Key(d, i) names polygon, sites and option, and everything
   with the same key looks the same, whatever happened before.
   A state is a record
     stack  the creations going on, innermost last: records [d, i]
     res    for each diagram the key of its result, NoKey if it has none (never created, being created, aborted)
     kept   the keys of all results finished so far, which the program may have kept when the diagram was created again               *)
EXTENDS Integers, Sequences

NoKey == <<>>
(* world: poly[d], rz[d] *)
Key(world, d, i) == <<world.poly[d], i, world.rz[d]>>

Blank(world) == [stack |-> <<>>, res |-> [d \in DOMAIN world.poly |-> NoKey], kept |-> <<>>]

Busy(st, d) == \E k \in DOMAIN st.stack : st.stack[k].d = d
Begun(st, d, i) == [st EXCEPT !.stack = Append(@, [d |-> d, i |-> i]), !.res[d] = NoKey]
Top(st) == st.stack[Len(st.stack)]
Finished(world, st) ==
    LET t == Top(st) key == Key(world, t.d, t.i)
    IN [stack |-> SubSeq(st.stack, 1, Len(st.stack) - 1), res |-> [st.res EXCEPT ![t.d] = key], kept |-> Append(st.kept, key)]
Aborted(st) == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
=============================================================================
