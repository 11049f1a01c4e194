-------------------------------- MODULE Vec --------------------------------
(***************************************************************************)
(* Vectors of Fixed numbers (sequences) and uniform axes.                    *)
(***************************************************************************)
EXTENDS Fixed, SequencesExt, FiniteSets

Idx(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]          \* <<a, a+1, ..., b>>
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

VMap(Op(_), s)    == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
VScale(c, s)      == TLCEval([i \in 1..Len(s) |-> FMul(c, s[i])])
VSq(s)            == FDot(s, s)                            \* sum of squares
VMean(s)          == FOver(BSum(s), Len(s))
VMax(s)           == FoldLeft(LAMBDA a, b : FMax(a, b), s[1], s)
VMin(s)           == FoldLeft(LAMBDA a, b : FMin(a, b), s[1], s)
VMaxAbs(s)        == IF s = <<>> THEN BZero ELSE FoldLeft(LAMBDA a, b : FMax(a, FAbs(b)), BZero, s)
VSumAbs(s)        == IF s = <<>> THEN BZero ELSE BSum([i \in 1..Len(s) |-> FAbs(s[i])])
VFinite(s)        == \A i \in 1..Len(s) : FIs(s[i])

(* first / last index in a..b where s is maximal *)
FirstMax(s, a, b) == FoldLeft(LAMBDA m, i : IF FLt(s[m], s[i]) THEN i ELSE m, a, Idx(a, b))
FirstMin(s, a, b) == FoldLeft(LAMBDA m, i : IF FLt(s[i], s[m]) THEN i ELSE m, a, Idx(a, b))
LastMax(s, a, b)  == FoldLeft(LAMBDA m, i : IF FLe(s[m], s[i]) THEN i ELSE m, a, Idx(a, b))

(* element-wise comparison of an observed vector with the specified one *)
VNear(obs, spec, tol) == /\ Len(obs) = Len(spec)
                         /\ \A i \in 1..Len(spec) : Near(obs[i], spec[i], tol)
VSame(a, b) == a = b

(* --------------------------- uniform axes ------------------------------ *)
Ulp == <<1, 0, 0, 4925, 2204, 2>>                           \* 2.22e-16, the spacing of doubles at 1
StepAt(t, i)   == BSub(t[i + 1], t[i])
Increasing(t)  == \A i \in 1..(Len(t) - 1) : BCmp(t[i], t[i + 1]) < 0
MeanStep(t)    == FOver(BSub(t[Len(t)], t[1]), Len(t) - 1)
Deviation(t)   == LET d1 == StepAt(t, 1)                    \* largest departure from the first step
                  IN FoldLeft(LAMBDA m, i : FMax(m, FAbs(BSub(StepAt(t, i), d1))), BZero, Idx(1, Len(t) - 1))
AxisRound(t)   == FMul(VMaxAbs(<<t[1], t[Len(t)]>>), Ulp)   \* round-off of the numbers on the axis
(* Is t a uniform increasing axis?  "yes", "no", or "edge" in the tolerance band between *)
Uniformity(t) ==
  IF Len(t) < 2 THEN "no"
  ELSE IF ~Increasing(t) THEN "no"
  ELSE LET dev == Deviation(t)
           u   == AxisRound(t)
       IN IF FLe(dev, FMax(TenPow(11), FTimes(u, 2))) THEN "yes"
          ELSE IF FLt(BAdd(TenPow(8), FTimes(u, 64)), dev) THEN "no"
          ELSE "edge"

(* Numbers computed from the axis (its step, frequencies 1/(N dt)) carry the    *)
(* round-off of the axis: relative uncertainty of the step.                     *)
StepSlack(t) == BAdd(TenPow(12), FDiv(BAdd(FTimes(AxisRound(t), 4), Deviation(t)), MeanStep(t)))
(* the same where the step is stated to be the mean step: round-off of the axis only *)
RoundSlack(t) == BAdd(TenPow(12), FDiv(FTimes(AxisRound(t), 4), MeanStep(t)))

(* index of the first axis value >= tau (Len+1 if none) / last one <= tau (0 if none) *)
FirstFrom(t, tau) ==
  LET n == Len(t)
      Scan(a, b) == FoldLeft(LAMBDA m, i : IF m # 0 THEN m ELSE IF FLe(tau, t[i]) THEN i ELSE 0, 0, Idx(a, b))
      Full == LET m == Scan(1, n) IN IF m = 0 THEN n + 1 ELSE m
  IN IF n < 40 THEN Full
     ELSE IF FLe(tau, t[1]) THEN 1
     ELSE IF FLt(t[n], tau) THEN n + 1
     ELSE LET g == FFloor(FDiv(BSub(tau, t[1]), MeanStep(t))) + 1
              a == Max2(1, g - 2)
              b == Min2(n, g + 3)
          IN IF (a = 1 \/ FLt(t[a], tau)) /\ FLe(tau, t[b]) THEN Scan(a, b) ELSE Full
LastUpTo(t, tau) ==
  LET m == FirstFrom(t, tau)
  IN IF m <= Len(t) /\ BCmp(t[m], tau) = 0 THEN m ELSE m - 1

(* Axes on which the frequencies k/(N dt) are exact in floating point: limits on a bin can be judged exactly *)
Dyadic(x) == FLe(FAbs(x), FInt(1000)) /\ LET y == FTimes(x, 1048576) IN y = FInt(FFloor(y))
ExactGrid(t) == /\ Len(t) > 1 /\ Dyadic(t[1]) /\ Dyadic(StepAt(t, 1)) /\ Deviation(t)[1] = 0
                /\ Dyadic(FDiv(One, FTimes(StepAt(t, 1), Len(t))))

Fail(cond, name) == IF cond THEN {} ELSE {name}
=============================================================================
