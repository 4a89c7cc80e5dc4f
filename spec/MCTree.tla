------------------------------- MODULE MCTree -------------------------------
(* Enumerates histories of insertions and deletions; the harness replays them and TreeTrace judges the trees that result. *)
EXTENDS TreeHistory, TLC, Json

CONSTANTS K, Depth

VARIABLES keys, hist
vars == <<keys, hist>>

DoInsert(k) == k \notin keys /\ keys' = Insert(keys, k) /\ hist' = Append(hist, <<1, k>>)
DoDelete(k) == k \in keys /\ keys' = Delete(keys, k) /\ hist' = Append(hist, <<-1, k>>)
(* deleting a key that is not there changes nothing *)
DoMiss(k) == k \notin keys /\ k % 3 = 0 /\ keys' = keys /\ hist' = Append(hist, <<-1, k>>)

Init == keys = {} /\ hist = <<>>
Next == Len(hist) < Depth /\ \E k \in 1 .. K : DoInsert(k) \/ DoDelete(k) \/ (keys # {} /\ DoMiss(k))
Spec == Init /\ [][Next]_vars

KeysRight == \A k \in 1 .. K : LET I == {i \in DOMAIN hist : hist[i][2] = k}
                               IN k \in keys <=> I # {} /\ hist[Max(I)][1] = 1
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
