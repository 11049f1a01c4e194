------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Arbitrary-precision integers as TLA+ values (TLC's own integers are      *)
(* 32-bit).  A number is a tuple <<s, l1, ..., ln>>: s in {-1,0,1} is the    *)
(* sign and l1..ln are the little-endian limbs of the magnitude in base      *)
(* 10^4, without a leading zero limb; zero is <<0>>.  Three further values    *)
(* stand for the non-finite IEEE numbers an implementation may return:       *)
(* NaN == <<9>>, +inf == <<8>>, -inf == <<7>>.                               *)
(*                                                                         *)
(* Every operator is defined here in plain TLA+.  java/BigNum.java holds an   *)
(* optional TLC module override (same operators, java.math.BigInteger) used  *)
(* for speed only; tools/bignumtest.py checks that both agree.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL Base == 10000

BZero == <<0>>
NaN   == <<9>>
PInf  == <<8>>
NInf  == <<7>>

BIsFinite(a) == a[1] \in {-1, 0, 1}
BSign(a)     == a[1]

(* ---- magnitudes: little-endian sequences of limbs, possibly with leading zeros ---- *)
RECURSIVE Trim(_)
LOCAL Mag(a) == Tail(a)
Trim(m) == IF m = <<>> THEN m
           ELSE IF m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

LOCAL Mk(s, m) == LET t == Trim(m) IN IF t = <<>> THEN BZero ELSE <<s>> \o t

LOCAL Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE CmpAt(_, _, _)
CmpAt(m, n, i) == IF i = 0 THEN 0
                  ELSE IF Limb(m, i) < Limb(n, i) THEN -1
                  ELSE IF Limb(m, i) > Limb(n, i) THEN 1
                  ELSE CmpAt(m, n, i - 1)
LOCAL MaxI(a, b) == IF a >= b THEN a ELSE b
LOCAL MCmp(m, n) == CmpAt(m, n, MaxI(Len(m), Len(n)))

RECURSIVE MAddFrom(_, _, _, _)
MAddFrom(m, n, i, c) ==
  IF i > MaxI(Len(m), Len(n)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Limb(m, i) + Limb(n, i) + c
       IN <<t % Base>> \o MAddFrom(m, n, i + 1, t \div Base)

RECURSIVE MSubFrom(_, _, _, _)      \* requires m >= n
MSubFrom(m, n, i, b) ==
  IF i > Len(m) THEN <<>>
  ELSE LET t == Limb(m, i) - Limb(n, i) - b
       IN IF t < 0 THEN <<t + Base>> \o MSubFrom(m, n, i + 1, 1)
                   ELSE <<t>> \o MSubFrom(m, n, i + 1, 0)

RECURSIVE MScale(_, _, _)           \* limb d times magnitude m plus carry c
MScale(m, d, c) ==
  IF m = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Head(m) * d + c
       IN <<t % Base>> \o MScale(Tail(m), d, t \div Base)

RECURSIVE MMul(_, _)
MMul(m, n) ==
  IF n = <<>> THEN <<>>
  ELSE MAddFrom(MScale(m, Head(n), 0), IF Tail(n) = <<>> THEN <<>> ELSE <<0>> \o MMul(m, Tail(n)), 1, 0)

(* largest q in lo..hi with q * n <= m *)
RECURSIVE QDigit(_, _, _, _)
QDigit(m, n, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MCmp(Trim(MScale(n, mid, 0)), m) <= 0 THEN QDigit(m, n, mid, hi)
          ELSE QDigit(m, n, lo, mid - 1)

(* long division of magnitude m by n: processes limbs i..1, remainder r *)
RECURSIVE MDivFrom(_, _, _, _)
MDivFrom(m, n, i, r) ==
  IF i = 0 THEN <<>>
  ELSE LET cur == Trim(<<m[i]>> \o r)
           q   == QDigit(cur, n, 0, Base - 1)
           rem == Trim(MSubFrom(cur, Trim(MScale(n, q, 0)), 1, 0))
       IN MDivFrom(m, n, i - 1, rem) \o <<q>>

(* ---------------------------- public operators ---------------------------- *)
RECURSIVE NatLimbs(_)
NatLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NatLimbs(n \div Base)
BInt(n) == IF n = 0 THEN BZero ELSE IF n > 0 THEN <<1>> \o NatLimbs(n) ELSE <<-1>> \o NatLimbs(0 - n)

BNeg(a) == IF a[1] \in {-1, 1} THEN <<0 - a[1]>> \o Tail(a) ELSE a

BCmp(a, b) ==      \* -1, 0, 1; finite arguments
  IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE IF a[1] = 0 THEN 0
  ELSE a[1] * MCmp(Mag(a), Mag(b))

BAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], MAddFrom(Mag(a), Mag(b), 1, 0))
  ELSE LET c == MCmp(Mag(a), Mag(b))
       IN IF c = 0 THEN BZero
          ELSE IF c > 0 THEN Mk(a[1], MSubFrom(Mag(a), Mag(b), 1, 0))
          ELSE Mk(b[1], MSubFrom(Mag(b), Mag(a), 1, 0))

BSub(a, b) == BAdd(a, BNeg(b))

BMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN BZero
  ELSE Mk(a[1] * b[1], MMul(Mag(a), Mag(b)))

BDiv(a, b) ==      \* truncates towards zero; b # 0
  IF a[1] = 0 THEN BZero
  ELSE Mk(a[1] * b[1], MDivFrom(Mag(a), Mag(b), Len(a) - 1, <<>>))

(* the value as a TLA+ integer; it must fit in 32 bits *)
RECURSIVE LimbsToNat(_)
LimbsToNat(m) == IF m = <<>> THEN 0 ELSE Head(m) + Base * LimbsToNat(Tail(m))
BToInt(a) == IF a[1] = 0 THEN 0 ELSE a[1] * LimbsToNat(Mag(a))

(* integer square root of a non-negative number *)
RECURSIVE SqrtNewton(_, _)
SqrtNewton(a, x) ==
  LET y == BDiv(BAdd(x, BDiv(a, x)), <<1, 2>>)
  IN IF BCmp(y, x) >= 0 THEN x ELSE SqrtNewton(a, y)
BSqrt(a) ==
  IF a[1] = 0 THEN BZero
  ELSE SqrtNewton(a, <<1>> \o [i \in 1..((Len(a) - 1) \div 2) |-> 0] \o <<1, 1>>)

(* multiply / divide (truncating) by 10^(4k) *)
BShiftUp(a, k) == IF a[1] = 0 THEN a ELSE <<a[1]>> \o [i \in 1..k |-> 0] \o Tail(a)
BShiftDown(a, k) == IF Len(a) - 1 <= k THEN BZero ELSE <<a[1]>> \o SubSeq(a, k + 2, Len(a))

(* fixed point with 8 fractional limbs (unit 10^-32) *)
FMul(a, b) == BShiftDown(BMul(a, b), 8)
FDiv(a, b) == BDiv(BShiftUp(a, 8), b)

(* the places 1..Len(h) from the highest to the lowest h, equal ones by T (empty: not looked at), then by place *)
BOrder(h, T) ==
  SortSeq([i \in 1..Len(h) |-> i],
          LAMBDA i, j : LET c == BCmp(h[i], h[j])
                            d == IF T = <<>> THEN 0 ELSE BCmp(T[i], T[j])
                        IN c > 0 \/ (c = 0 /\ (d > 0 \/ (d = 0 /\ i < j))))

(* sums over sequences *)
RECURSIVE BSumFrom(_, _)
BSumFrom(s, i) == IF i > Len(s) THEN BZero ELSE BAdd(s[i], BSumFrom(s, i + 1))
BSum(s) == BSumFrom(s, 1)

RECURSIVE BDotFrom(_, _, _)
BDotFrom(s, t, i) == IF i > Len(s) THEN BZero ELSE BAdd(BMul(s[i], t[i]), BDotFrom(s, t, i + 1))
FDot(s, t) == BShiftDown(BDotFrom(s, t, 1), 8)
=============================================================================
