---------------------------- MODULE TreeHistory ----------------------------
(* The generic balanced search tree (property C17): its abstract state is the set of its keys.  What a tree recorded from the
   implementation has to look like in such a state is decided by Failures.                                                      *)
EXTENDS AvlTree, FiniteSetsExt

Insert(keys, k) == keys \cup {k}
Delete(keys, k) == keys \ {k}

Max0(S) == IF S = {} THEN 0 ELSE Max(S)
Min0(S) == IF S = {} THEN 0 ELSE Min(S)

(* D: a recorded tree.  D.n nodes as in AvlTree with their key k and d: parent pointer right; D.f[j] what find returned for the j-th asked
   key D.q[j]: 0 nothing, otherwise the node; D.lv leaves; D.mn, D.mx minimum and maximum.  keys: the expected content as sequence    *)
Keys(N, s) == [i \in DOMAIN s |-> N[s[i]].k]

Failures(D) ==
  LET N == D.n
      keys == D.keys
      seq == InOrder(N, 1)
  IN IF N = <<>> THEN (IF keys = <<>> THEN {} ELSE {"C17.content"}) \cup (IF \A j \in DOMAIN D.f : D.f[j] = 0 THEN {} ELSE {"C17.find"})
     ELSE IF ~IsTree(N) THEN {"C17.shape"}
     ELSE (IF Keys(N, seq) = keys THEN {} ELSE {"C17.content"}) \cup
          (IF ParentsRight(N) THEN {} ELSE {"C17.parent"}) \cup
          (IF HeightsStored(N) THEN {} ELSE {"C17.height"}) \cup
          (IF Balanced(N) THEN {} ELSE {"C17.balance"}) \cup
          (IF \A j \in DOMAIN D.q : IF \E i \in DOMAIN keys : keys[i] = D.q[j]
                                    THEN D.f[j] \in DOMAIN N /\ N[D.f[j]].k = D.q[j] ELSE D.f[j] = 0 THEN {} ELSE {"C17.find"}) \cup
          (IF \A j \in DOMAIN D.q : D.fv[j] = D.f[j] THEN {} ELSE {"C17.findvalue"}) \cup
          (IF D.lv = LeavesOf(N, 1) THEN {} ELSE {"C17.leaves"}) \cup
          (IF D.mn = seq[1] /\ D.mx = seq[Len(seq)] THEN {} ELSE {"C17.minmax"})
=============================================================================
