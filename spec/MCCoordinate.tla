---------------------------- MODULE MCCoordinate ----------------------------
(* Histories of coordinates being made, assigned and subtracted (property C20): what both coordinates of each object are after every operation.
   Values are numbered; a result is a term <<"v", n>> or <<"-", term, term>>, which the replay evaluates exactly.                    *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Objects, Values, Depth, Emitting
VARIABLES obj, hist
vars == <<obj, hist>>

V(n) == <<"v", n>>
Minus(a, b) == <<"-", a, b>>
Unset == <<>>
Init == obj = [o \in Objects |-> Unset] /\ hist = <<>>
Log(op, o, a, b) == hist' = Append(hist, [op |-> op, o |-> o, a |-> a, b |-> b, obj |-> obj'])
Make(o, a, b) == obj' = [obj EXCEPT ![o] = <<V(a), V(b)>>] /\ Log("make", o, a, b)
(* a coordinate can be assigned through x and y as through xd and yd *)
Assign(o, c, name, a) == obj[o] # Unset /\ obj' = [obj EXCEPT ![o][c] = V(a)] /\ Log(name, o, a, 0)
Subtract(o, p, q) == /\ obj[p] # Unset /\ obj[q] # Unset
                     /\ obj' = [obj EXCEPT ![o] = <<Minus(obj[p][1], obj[q][1]), Minus(obj[p][2], obj[q][2])>>] /\ Log("sub", o, p, q)
Next == /\ Len(hist) < Depth
        /\ \E o \in Objects :
             \/ \E a, b \in Values : Make(o, a, b)
             \/ \E a \in Values : Assign(o, 1, "x", a) \/ Assign(o, 1, "xd", a) \/ Assign(o, 2, "y", a) \/ Assign(o, 2, "yd", a)
             \/ \E p, q \in Objects : Subtract(o, p, q)
Spec == Init /\ [][Next]_vars

(* an operation changes one object only, and an assignment one coordinate only *)
OneObject == [][\A o \in Objects : obj'[o] # obj[o] => hist'[Len(hist')].o = o]_vars
OneCoordinate == [][LET h == hist'[Len(hist')] IN
                    (h.op \in {"x", "xd"} => obj'[h.o][2] = obj[h.o][2]) /\ (h.op \in {"y", "yd"} => obj'[h.o][1] = obj[h.o][1])]_vars
Emit == (Emitting /\ Len(hist) = Depth) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
