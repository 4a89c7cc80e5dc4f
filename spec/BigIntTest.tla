----------------------------- MODULE BigIntTest -----------------------------
(* The pure definitions of BigInt (instantiated from the copy BigIntPure,    *)
(* which has no Java override) agree with the overridden ones.               *)
EXTENDS Integers, Sequences, TLC
J == INSTANCE BigInt
P == INSTANCE BigIntPure
VARIABLES a, b
Seeds == {0, 1, -1, 2, -3, 7, 9999, 10000, -10000, 10001, 123456, -99999999, 2000000000, -2147483647}
B(n) == P!BInt(n)
Grow(x, n) == {x, P!BMul(x, x), P!BAdd(P!BMul(x, B(n)), P!BMul(B(n), B(n))), P!BMul(P!BMul(x, B(n)), P!BMul(x, x))}
Init == \E n \in Seeds, m \in Seeds : a \in Grow(B(n), m) /\ b \in Grow(B(m), n)
Next == UNCHANGED <<a, b>>
Agree ==
  /\ J!BAdd(a, b) = P!BAdd(a, b)
  /\ J!BSub(a, b) = P!BSub(a, b)
  /\ J!BMul(a, b) = P!BMul(a, b)
  /\ J!BCmp(a, b) = P!BCmp(a, b)
  /\ J!BNeg(a) = P!BNeg(a)
  /\ J!BSqrt(a) = P!BSqrt(a)
  /\ b[1] > 0 => J!BDiv(a, b) = P!BDiv(a, b)
  /\ P!BSub(P!BAdd(a, b), b) = a
  /\ b[1] > 0 => LET q == P!BDiv(a, b) IN
        /\ P!BLeq(P!BMul(q, b), a) /\ P!BLt(a, P!BMul(P!BAdd(q, P!BOne), b))
  /\ a[1] >= 0 => LET s == P!BSqrt(a) IN P!BLeq(P!BSq(s), a) /\ P!BLt(a, P!BSq(P!BAdd(s, P!BOne)))
=============================================================================
