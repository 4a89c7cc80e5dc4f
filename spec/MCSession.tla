----------------------------- MODULE MCSession -----------------------------
(* Enumerates programs over Session.  An operation is a record [op, d, i, e, j, w]: create diagram d with input i; "nest": creating diagram e
   with input j from an observer of d at moment w; "break": an observer raises an exception at moment w; "read": look at, plot and ask
   diagram d; "fail": creating d with sites that cannot be converted.
   Moments: 1 the first message, 2 any message of the sweep up to SWEEP, 3 a message while clipping, 4 VORONOI.
   Creating with a polygon that is being clipped for another diagram at that very moment (moment 3) is outside what is claimed.      *)
EXTENDS Session, TLC, Json

CONSTANTS ND, NI, Depth, Emitting
VARIABLES world, st, prog
vars == <<world, st, prog>>

(* polygon numbers in order of first use *)
Canonical(p) == p[1] = 1 /\ \A d \in 2 .. ND : \E b \in 1 .. d - 1 : p[d] <= p[b] + 1
Worlds == [poly : {p \in [1 .. ND -> 1 .. ND] : Canonical(p)}, rz : [1 .. ND -> {0, 1}]]
Init == world \in Worlds /\ st = Blank(world) /\ prog = <<>>

Op(o, d, i, e, j, w) == [op |-> o, d |-> d, i |-> i, e |-> e, j |-> j, w |-> w]
Create(d, i) == /\ st' = Finished(world, Begun(st, d, i)) /\ prog' = Append(prog, Op("create", d, i, 0, 0, 0))
Nest(d, i, e, j, w) == /\ d # e
                       /\ (IF w = 3 THEN world.poly[d] # world.poly[e] ELSE TRUE)
                       /\ st' = Finished(world, Finished(world, Begun(Begun(st, d, i), e, j)))
                       /\ prog' = Append(prog, Op("nest", d, i, e, j, w))
Break(d, i, w) == st' = Aborted(Begun(st, d, i)) /\ prog' = Append(prog, Op("break", d, i, 0, 0, w))
Read(d) == st.res[d] # NoKey /\ st' = st /\ prog' = Append(prog, Op("read", d, 0, 0, 0, 0))
FailOp(d) == st' = Aborted(Begun(st, d, 0)) /\ prog' = Append(prog, Op("fail", d, 0, 0, 0, 0))

Next == /\ Len(prog) < Depth
        /\ \E d \in 1 .. ND :
              \/ \E i \in 1 .. NI : \/ Create(d, i)
                                    \/ \E w \in 1 .. 4 : Break(d, i, w)
                                    \/ \E e \in 1 .. ND, j \in 1 .. NI, w \in 1 .. 4 : Nest(d, i, e, j, w)
              \/ Read(d)
              \/ FailOp(d)
        /\ UNCHANGED world
Spec == Init /\ [][Next]_vars

(* what the property says, on the specification: nothing is going on between operations, results carry their own polygon and option, and
   finished results are only ever added to *)
Quiet == st.stack = <<>>
OwnInput == \A d \in 1 .. ND : st.res[d] # NoKey => st.res[d][1] = world.poly[d] /\ st.res[d][3] = world.rz[d]
KeptCovers == \A d \in 1 .. ND : st.res[d] # NoKey => \E k \in DOMAIN st.kept : st.kept[k] = st.res[d]
OnlyAdded == [][Len(st'.kept) >= Len(st.kept) /\ SubSeq(st'.kept, 1, Len(st.kept)) = st.kept]_vars
OthersUntouched == [][\A d \in 1 .. ND : st'.res[d] # st.res[d] => prog'[Len(prog')].d = d \/ prog'[Len(prog')].e = d]_vars

Emit == IF ~Emitting \/ Len(prog) < Depth THEN TRUE
        ELSE PrintT(<<"HIST", ToJson([world |-> world, ops |-> prog])>>)
=============================================================================
