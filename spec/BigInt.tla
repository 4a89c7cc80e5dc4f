------------------------------- MODULE BigInt -------------------------------
(* Arbitrary precision integers.  TLC's own integers have 32 bits, which is  *)
(* not enough for exact geometry.                                            *)
(*                                                                           *)
(* A big integer is a tuple <<sgn, l1, ..., ln>>: the sign (-1, 0, 1) and    *)
(* the limbs of the magnitude in base 10^4, least significant first, the     *)
(* last limb not zero.  Zero is <<0>>.  The form is canonical, so that = is  *)
(* equality of numbers.                                                      *)
(*                                                                           *)
(* The definitions below are complete and can be evaluated by TLC as they    *)
(* are.  For speed the operators marked (J) are overridden by BigInt.java;   *)
(* BigIntTest.tla compares both.                                             *)
EXTENDS Integers, Sequences

LOCAL Base == 10000

-----------------------------------------------------------------------------
(* magnitudes: sequences of limbs *)

RECURSIVE MTrim(_)
LOCAL MTrim(m) == IF m = <<>> THEN m
                  ELSE IF m[Len(m)] = 0 THEN MTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m

LOCAL MLimb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
LOCAL MMax(i, j) == IF i > j THEN i ELSE j

RECURSIVE MAddFrom(_, _, _, _)
LOCAL MAddFrom(m, n, i, carry) ==
  IF i > MMax(Len(m), Len(n)) THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET s == MLimb(m, i) + MLimb(n, i) + carry
       IN <<s % Base>> \o MAddFrom(m, n, i + 1, s \div Base)
LOCAL MAdd(m, n) == MAddFrom(m, n, 1, 0)

RECURSIVE MSubFrom(_, _, _, _)
LOCAL MSubFrom(m, n, i, borrow) ==      \* requires m >= n
  IF i > Len(m) THEN <<>>
  ELSE LET s == m[i] - MLimb(n, i) - borrow
       IN <<s % Base>> \o MSubFrom(m, n, i + 1, IF s < 0 THEN 1 ELSE 0)
LOCAL MSub(m, n) == MTrim(MSubFrom(m, n, 1, 0))

RECURSIVE MCmpFrom(_, _, _)
LOCAL MCmpFrom(m, n, i) == IF i = 0 THEN 0
                           ELSE IF m[i] # n[i] THEN (IF m[i] < n[i] THEN -1 ELSE 1)
                           ELSE MCmpFrom(m, n, i - 1)
LOCAL MCmp(m, n) == IF Len(m) # Len(n) THEN (IF Len(m) < Len(n) THEN -1 ELSE 1)
                    ELSE MCmpFrom(m, n, Len(m))

RECURSIVE MScaleFrom(_, _, _, _)
LOCAL MScaleFrom(m, d, i, carry) ==
  IF i > Len(m) THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET s == m[i] * d + carry
       IN <<s % Base>> \o MScaleFrom(m, d, i + 1, s \div Base)
LOCAL MScale(m, d) == MTrim(MScaleFrom(m, d, 1, 0))

RECURSIVE MMulFrom(_, _, _)
LOCAL MMulFrom(m, n, i) ==              \* m * (n[i] + n[i+1] * Base + ...)
  IF i > Len(n) THEN <<>>
  ELSE MAdd(MScale(m, n[i]), LET r == MMulFrom(m, n, i + 1) IN IF r = <<>> THEN r ELSE <<0>> \o r)
LOCAL MMul(m, n) == MTrim(MMulFrom(m, n, 1))

RECURSIVE MDigit(_, _, _, _)
LOCAL MDigit(r, n, lo, hi) ==           \* largest d in lo..hi with d * n <= r
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MCmp(MScale(n, mid), r) <= 0 THEN MDigit(r, n, mid, hi) ELSE MDigit(r, n, lo, mid - 1)

RECURSIVE MDivFrom(_, _, _, _, _)
LOCAL MDivFrom(m, n, i, rest, quot) ==  \* long division from limb i down to 1
  IF i = 0 THEN <<MTrim(quot), rest>>
  ELSE LET r == MTrim(<<m[i]>> \o rest)
           d == MDigit(r, n, 0, Base - 1)
       IN MDivFrom(m, n, i - 1, MSub(r, MScale(n, d)), <<d>> \o quot)
LOCAL MDivMod(m, n) == MDivFrom(m, n, Len(m), <<>>, <<>>)

LOCAL Mag(a) == Tail(a)
LOCAL Make(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m

-----------------------------------------------------------------------------
RECURSIVE LimbsOf(_)
LOCAL LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o LimbsOf(n \div Base)

BInt(n) ==                                                             \* (J)
  IF n = 0 THEN <<0>> ELSE IF n > 0 THEN <<1>> \o LimbsOf(n) ELSE <<-1>> \o LimbsOf(-n)

BSgn(a) == a[1]

BNeg(a) == IF a[1] = 0 THEN a ELSE [a EXCEPT ![1] = -a[1]]             \* (J)

BAdd(a, b) ==                                                          \* (J)
  IF a[1] = 0 THEN b
  ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Make(a[1], MAdd(Mag(a), Mag(b)))
  ELSE IF MCmp(Mag(a), Mag(b)) >= 0 THEN Make(a[1], MSub(Mag(a), Mag(b)))
  ELSE Make(b[1], MSub(Mag(b), Mag(a)))

BSub(a, b) == BAdd(a, BNeg(b))                                         \* (J)

BMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN <<0>>                       \* (J)
              ELSE Make(a[1] * b[1], MMul(Mag(a), Mag(b)))

BCmp(a, b) ==                                                          \* (J)
  IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE a[1] * MCmp(Mag(a), Mag(b))

(* floor division by a positive divisor *)
BDiv(a, b) ==                                                          \* (J)
  IF a[1] = 0 THEN a
  ELSE LET qr == MDivMod(Mag(a), Mag(b))
       IN IF a[1] > 0 THEN Make(1, qr[1])
          ELSE IF qr[2] = <<>> THEN Make(-1, qr[1])
          ELSE Make(-1, MAdd(qr[1], <<1>>))

RECURSIVE SqrtFrom(_, _)
LOCAL SqrtFrom(a, x) ==                 \* Newton iteration from above
  LET y == BDiv(BAdd(x, BDiv(a, x)), <<1, 2>>)
  IN IF BCmp(y, x) >= 0 THEN x ELSE SqrtFrom(a, y)

(* floor square root of a non-negative number (0 for negative ones) *)
BSqrt(a) == IF a[1] <= 0 THEN <<0>> ELSE SqrtFrom(a, BAdd(a, <<1, 1>>)) \* (J)

-----------------------------------------------------------------------------
BZero == <<0>>
BOne == <<1, 1>>
BLt(a, b) == BCmp(a, b) < 0
BLeq(a, b) == BCmp(a, b) <= 0
BAbs(a) == IF a[1] < 0 THEN BNeg(a) ELSE a
BSq(a) == BMul(a, a)
BMin(a, b) == IF BCmp(a, b) <= 0 THEN a ELSE b
BMax(a, b) == IF BCmp(a, b) >= 0 THEN a ELSE b
BDbl(a) == BAdd(a, a)
(* |a - b| <= t *)
BNear(a, b, t) == BCmp(BAbs(BSub(a, b)), t) <= 0
=============================================================================
