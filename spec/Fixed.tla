------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Real arithmetic for the specification: fixed-point numbers with unit      *)
(* 10^-32 on top of BigNum.  The IEEE doubles observed in the implementation *)
(* arrive here as their value rounded to that unit, so comparisons between   *)
(* observed numbers are comparisons of the doubles themselves.               *)
(***************************************************************************)
EXTENDS BigNum

TenPow(k) ==                        \* 10^-k as a number, 0 <= k <= 32
  LET e == 32 - k IN <<1>> \o [i \in 1..(e \div 4) |-> 0] \o <<10 ^ (e % 4)>>

Zero == BZero
One  == <<1, 0, 0, 0, 0, 0, 0, 0, 0, 1>>
Two  == <<1, 0, 0, 0, 0, 0, 0, 0, 0, 2>>
Half == <<1, 0, 0, 0, 0, 0, 0, 0, 5000>>
Pi   == <<1, 7950, 3832, 2643, 3846, 7932, 3589, 9265, 1415, 3>>
Gravity == <<1, 0, 0, 0, 0, 0, 0, 0, 8100, 9>>                  \* 9.81 m/s^2

FInt(n)    == BShiftUp(BInt(n), 8)
FTimes(x, n) == BMul(x, BInt(n))    \* integer multiple
FOver(x, n)  == BDiv(x, BInt(n))    \* integer fraction
FRat(p, q) == BDiv(FInt(p), BInt(q))

FIs(x)  == BIsFinite(x)
FAbs(x) == IF x[1] = -1 THEN BNeg(x) ELSE x
FLe(a, b) == BCmp(a, b) <= 0
FLt(a, b) == BCmp(a, b) < 0
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
FMax(a, b) == IF FLe(a, b) THEN b ELSE a
FSq(x) == FMul(x, x)

FFloor(x) ==                        \* largest integer <= x (must fit in a TLA+ integer)
  LET q == BDiv(x, One)
      r == BSub(x, BMul(q, One))
  IN IF r[1] = -1 THEN BToInt(q) - 1 ELSE BToInt(q)
FRound(x) == FFloor(BAdd(x, Half))  \* nearest integer, halves up

(* ------------------------------ tolerances ------------------------------ *)
Rel(scale, k) == FMul(FAbs(scale), TenPow(k))                  \* |scale| * 10^-k
Near(a, b, tol) == FIs(a) /\ FIs(b) /\ FLe(FAbs(BSub(a, b)), tol)
(* a is the observed number, b what it must be: they agree to 10^-k relative *)
Agree(a, b, k) == Near(a, b, BAdd(Rel(b, k), TenPow(29)))

(* ------------------------------ functions ------------------------------- *)
FSqrt(x) == BSqrt(BShiftUp(x, 8))

RECURSIVE FPow(_, _)                \* integer power
FPow(x, n) ==
  IF n = 0 THEN One
  ELSE IF n < 0 THEN (IF FLt(FAbs(x), One) THEN FPow(FDiv(One, x), 0 - n) ELSE FDiv(One, FPow(x, 0 - n)))
  ELSE IF n % 2 = 1 THEN FMul(x, FPow(x, n - 1))
  ELSE LET h == FPow(x, n \div 2) IN FMul(h, h)

RECURSIVE ExpTaylor(_, _, _)        \* sum of the series from `term' on
ExpTaylor(x, term, n) ==
  IF term[1] = 0 THEN BZero
  ELSE BAdd(term, ExpTaylor(x, FOver(FMul(term, x), n), n + 1))

RECURSIVE SquareTimes(_, _)
SquareTimes(x, n) == IF n = 0 THEN x ELSE SquareTimes(FMul(x, x), n - 1)

RECURSIVE Halvings(_)               \* how often to halve x > 0 to get below 1/32
Halvings(x) == IF FLe(x, <<1, 0, 0, 0, 0, 0, 0, 0, 312>>) THEN 0 ELSE 1 + Halvings(FOver(x, 2))

FExpPos(x) ==                       \* x >= 0
  LET k == Halvings(x)
  IN SquareTimes(ExpTaylor(BDiv(x, BInt(2 ^ k)), One, 1), k)

FExp(x) ==                          \* below e^-80 the result is 0 in this unit
  IF x[1] = 0 THEN One
  ELSE IF FLt(x, FInt(-80)) THEN BZero
  ELSE IF x[1] = -1 THEN FDiv(One, FExpPos(BNeg(x)))
  ELSE FExpPos(x)

RECURSIVE AtanhSeries(_, _, _)      \* sum of p/n for n = n, n+2, ...
AtanhSeries(p, z2, n) ==
  IF p[1] = 0 THEN BZero ELSE BAdd(FOver(p, n), AtanhSeries(FMul(p, z2), z2, n + 2))

RECURSIVE FLnRoots(_, _)            \* ln of x > 0: take k square roots until 15/16 < x < 17/16
FLnRoots(x, k) ==
  IF FLe(FAbs(BSub(x, One)), <<1, 0, 0, 0, 0, 0, 0, 0, 625>>)
  THEN LET z == FDiv(BSub(x, One), BAdd(x, One))
       IN FTimes(AtanhSeries(z, FMul(z, z), 1), 2 ^ (k + 1))
  ELSE FLnRoots(FSqrt(x), k + 1)
FLn(x) == IF FLt(x, One) THEN BNeg(FLnRoots(FDiv(One, x), 0)) ELSE FLnRoots(x, 0)

FPowR(x, p) == IF x[1] = 0 THEN BZero ELSE FExp(FMul(p, FLn(x)))   \* real power of x >= 0

TwoPi == FTimes(Pi, 2)
FMod2Pi(x) == BSub(x, BMul(TwoPi, BDiv(BAdd(FDiv(x, TwoPi), IF x[1] = -1 THEN BNeg(Half) ELSE Half), One)))

RECURSIVE TrigTaylor(_, _, _)       \* term - next + ...
TrigTaylor(x2, term, n) ==
  IF term[1] = 0 THEN BZero
  ELSE BSub(term, TrigTaylor(x2, FOver(FMul(term, x2), n * (n + 1)), n + 2))

FCos(x) == LET r == FMod2Pi(x) IN TrigTaylor(FMul(r, r), One, 1)
FSin(x) == LET r == FMod2Pi(x) IN TrigTaylor(FMul(r, r), r, 2)

FTanh(x) ==
  IF x[1] = -1 THEN LET e == FExp(FTimes(x, 2)) IN FDiv(BSub(e, One), BAdd(One, e))
  ELSE LET e == FExp(FTimes(x, -2)) IN FDiv(BSub(One, e), BAdd(One, e))
=============================================================================
