------------------------------- MODULE Waves -------------------------------
(***************************************************************************)
(* Time-domain wave analysis: zero crossings, individual waves, ranking and  *)
(* wave statistics.  Operators define what the analysis must give; the       *)
(* ...Fails operators name the clauses an observed result violates.          *)
(***************************************************************************)
EXTENDS Vec

(* Numbers are recorded to 10^-32.  Of numbers below 10^-18 too few digits are left to tell how they compare, of    *)
(* signals that consist of such numbers only their signs and zeros are known.                                     *)
Fine(v) == v[1] # 0 /\ FLt(FAbs(v), TenPow(18))
TooFine(x) == Fine(VMaxAbs(x))

(* ---------------------------- zero crossings --------------------------- *)
(* x[i] >= 0 > x[i+1] (down) or x[i] <= 0 < x[i+1] (up); the sign of a number is its first component *)
IsCrossing(x, dir, i) ==
  IF dir = "down" THEN x[i][1] >= 0 /\ x[i + 1][1] = -1
  ELSE x[i][1] <= 0 /\ x[i + 1][1] = 1
CrossingIdx(x, dir) == SelectSeq(Idx(1, Len(x) - 1), LAMBDA i : IsCrossing(x, dir, i))
CrossingTime(t, x, i) ==
  BAdd(t[i], FDiv(FMul(StepAt(t, i), x[i]), BSub(x[i], x[i + 1])))
CrossingTimes(t, x, dir) ==
  LET c == CrossingIdx(x, dir) IN TLCEval([k \in 1..Len(c) |-> CrossingTime(t, x, c[k])])
NWaves(c) == IF Len(c) = 0 THEN 0 ELSE Len(c) - 1

TimeTol(t) == BAdd(FMul(MeanStep(t), TenPow(9)), BAdd(FTimes(AxisRound(t), 8), IF Uniformity(t) = "no" THEN BZero ELSE Deviation(t)))

CrossingFails(p, t, x, dir, n, tc) ==
  LET c   == CrossingIdx(x, dir)
      tol == TimeTol(t)
  IN Fail(n = NWaves(c), p \o "number-of-waves")
     \cup IF Len(tc) # Len(c) THEN {p \o "number-of-crossings"}
          ELSE Fail(TooFine(x) \/ \A k \in 1..Len(c) : Near(tc[k], CrossingTime(t, x, c[k]), tol), p \o "crossing-times")
               \cup Fail(\A k \in 1..Len(c) : /\ FLe(BSub(t[c[k]], tol), tc[k])
                                              /\ FLe(tc[k], BAdd(t[c[k] + 1], tol)), p \o "crossing-between-samples")

(* --------------------------- individual waves -------------------------- *)
(* wave k spans the samples with tc[k] <= t <= tc[k+1] *)
WaveSpan(t, tc, k) == <<FirstFrom(t, tc[k]), LastUpTo(t, tc[k + 1])>>
Wave(t, x, tc, k) ==
  LET w == WaveSpan(t, tc, k)
      a == FirstMax(x, w[1], w[2])
      b == FirstMin(x, w[1], w[2])
  IN [height |-> BSub(x[a], x[b]), period |-> BSub(tc[k + 1], tc[k]),
      crest |-> x[a], trough |-> x[b], tcrest |-> t[a], ttrough |-> t[b]]

(* r: observed arrays h, T, ac, at, tcr, ttr *)
WavesFails(p, t, x, tc, r) ==
  LET n == IF Len(tc) = 0 THEN 0 ELSE Len(tc) - 1
      W == TLCEval([k \in 1..n |-> Wave(t, x, tc, k)])
      hs == Rel(VMaxAbs(x), 12)
      tt == BAdd(Rel(MeanStep(t), 9), FTimes(AxisRound(t), 8))
  IN IF \E s \in {r.h, r.T, r.ac, r.at, r.tcr, r.ttr} : Len(s) # n THEN {p \o "one-entry-per-wave"}
     ELSE IF TooFine(x) THEN {}
     ELSE Fail(\A k \in 1..n : Near(r.h[k], W[k].height, hs), p \o "height")
          \cup Fail(\A k \in 1..n : Near(r.T[k], W[k].period, tt), p \o "period")
          \cup Fail(\A k \in 1..n : r.ac[k] = W[k].crest, p \o "crest")
          \cup Fail(\A k \in 1..n : r.at[k] = W[k].trough, p \o "trough")
          \cup Fail(\A k \in 1..n : r.tcr[k] = W[k].tcrest \/ Fine(W[k].crest), p \o "crest-time")
          \cup Fail(\A k \in 1..n : r.ttr[k] = W[k].ttrough \/ Fine(W[k].trough), p \o "trough-time")

(* ------------------------ ranking (multiset of waves) ------------------- *)
Ranked(h) == \A i \in 1..(Len(h) - 1) : FLe(h[i + 1], h[i])
Pairs(h, T) == TLCEval([i \in 1..Len(h) |-> <<h[i], T[i]>>])
Canon(h, T) == LET o == BOrder(h, T)                         \* the multiset, as a canonical sequence
               IN TLCEval([k \in 1..Len(h) |-> <<h[o[k]], T[o[k]]>>])
SameWaves(h, T, h2, T2) ==
  /\ Len(h) = Len(h2) /\ Len(h) = Len(T) /\ Len(h2) = Len(T2)
  /\ Canon(h, T) = Canon(h2, T2)

(* from highest to lowest, equal heights in the order they had *)
Stable(h, T) == LET o == BOrder(h, <<>>) IN TLCEval([k \in 1..Len(h) |-> <<h[o[k]], T[o[k]]>>])

RankFails(p, h, T, h2, T2) ==                              \* h2, T2 is the ranking of h, T
  IF Len(h2) # Len(h) \/ Len(T2) # Len(T) THEN {p \o "number-of-waves-changed"}
  ELSE Fail(Ranked(h2), p \o "descending")
       \cup Fail(SameWaves(h, T, h2, T2), p \o "height-period-pairs-kept")
       \cup Fail(Ranked(h) => (h2 = h /\ T2 = T), p \o "ranking-is-idempotent")
       \cup Fail(Len(h) # Len(T) \/ Pairs(h2, T2) = Stable(h, T), p \o "equal-heights-keep-their-order")

(* ------------------------------ statistics ------------------------------ *)
(* How many waves are in the fraction p = frac of n: floor(n p).  n p is computed  *)
(* in floating point; when the exact product is within 1e-12 n of an integer but   *)
(* not that integer exactly, both neighbours are admitted.                         *)
FloorSet(prod, slack) ==
  LET lo == FFloor(BSub(prod, slack))
      hi == FFloor(BAdd(prod, slack))
      ex == FFloor(prod)
  IN IF BCmp(prod, FInt(ex)) = 0 THEN {ex} ELSE lo..hi
FracCount(n, frac) == FloorSet(FTimes(frac, n), BMul(TenPow(14), BInt(n + 1)))
ExcCount(n, perc)  == FloorSet(FOver(FTimes(perc, n), 100), BMul(TenPow(14), BInt(n + 1)))

TopH(C, m) == FOver(BSum([i \in 1..m |-> C[i][1]]), m)
(* the mean period of the m highest waves: a range when equal heights straddle the cut *)
TopTRange(C, m) ==
  LET n  == Len(C)
      v  == C[m][1]
      up == Cardinality({i \in 1..n : BCmp(C[i][1], v) > 0})
      tie == SelectSeq(C, LAMBDA c : BCmp(c[1], v) = 0)    \* canonical order: periods descending
      q  == m - up
      base == BSum([i \in 1..up |-> C[i][2]])
      k  == Len(tie)
  IN <<FOver(BAdd(base, BSum([i \in 1..q |-> tie[k - q + i][2]])), m),
       FOver(BAdd(base, BSum([i \in 1..q |-> tie[i][2]])), m)>>

(* C: canonical sequence of the waves; cnt: admitted numbers of waves; observed hf, tf *)
TopFails(p, C, cnt, hf, tf) ==
  LET n == Len(C)
      Ok(m) == IF m <= 0 \/ n = 0 THEN hf = BZero /\ tf = BZero
               ELSE LET r == TopTRange(C, m)
                        s == Rel(C[m][2], 11)
                        e == BAdd(Rel(FAbs(r[2]), 11), TenPow(29))
                    IN /\ Agree(hf, TopH(C, m), 11)
                       /\ FIs(tf) /\ FLe(BSub(r[1], e), tf) /\ FLe(tf, BAdd(r[2], e))
  IN Fail(\E m \in cnt : Ok(m), p \o "mean-of-highest-waves")

(* the observed mean period must belong to the order the object shows afterwards *)
TopOfOrderFails(p, h, T, cnt, tf) ==
  Fail(\E m \in cnt : IF m <= 0 \/ Len(h) = 0 THEN tf = BZero ELSE Agree(tf, VMean(SubSeq(T, 1, m)), 11),
       p \o "period-of-the-same-waves")

ExceedFails(p, C, cnt, hx) ==
  Fail(\E m \in cnt : IF m <= 0 \/ Len(C) = 0 THEN hx = BZero ELSE hx = C[m][1], p \o "exceedance-height")

Hs(C) == LET m == Len(C) \div 3 IN IF m = 0 THEN BZero ELSE TopH(C, m)
Hrms(h) == FSqrt(FOver(VSq(h), Len(h)))
(* Hs * sqrt(-ln 0.02 / 2): the 2% height of a Rayleigh distribution with significant height Hs *)
Rayleigh2(hs) == FMul(hs, FSqrt(FOver(BNeg(FLn(FRat(2, 100))), 2)))
=============================================================================
