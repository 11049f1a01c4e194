------------------------------ MODULE MSignal ------------------------------
(***************************************************************************)
(* Signals built sample by sample: every word over Values up to MaxLen        *)
(* samples, and single pulses of the lengths in Pulses (the Fourier requests   *)
(* are linear, so pulses at every position settle a length).  The invariants   *)
(* are theorems about the specification's own operators; every state with at   *)
(* least MinLen samples is printed as a scenario and replayed on the code.      *)
(***************************************************************************)
EXTENDS Toolbox, Json
CONSTANTS Values, MinLen, MaxLen, Pulses
VARIABLE x

Axis(n) == TLCEval([i \in 1..n |-> FInt(i - 1)])
Num(w) == TLCEval([i \in 1..Len(w) |-> FInt(w[i])])
Neg(w) == TLCEval([i \in 1..Len(w) |-> BNeg(w[i])])
Rev(w) == TLCEval([i \in 1..Len(w) |-> w[Len(w) + 1 - i]])

Init == x = <<>> \/ \E n \in Pulses : \E j \in 1..n : x = [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
Sample == /\ Len(x) < MaxLen
          /\ \E v \in Values : x' = Append(x, v)
Next == Sample
Spec == Init /\ [][Next]_x
Enough == Len(x) >= MinLen

Emit == Enough => PrintT("SC|" \o ToJson([x |-> x]))

(* ------------------------------ crossings ------------------------------- *)
(* another sample keeps the crossings found so far and adds at most one *)
Growth == [][\A d \in {"down", "up"} :
              LET a == CrossingIdx(Num(x), d)
                  b == CrossingIdx(Num(x'), d)
              IN Len(a) <= Len(b) /\ Len(b) <= Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a]_x

CrossInv ==
  Enough => \A d \in {"down", "up"} :
    LET w == Num(x)
        t == Axis(Len(x))
        c == CrossingIdx(w, d)
        tc == CrossingTimes(t, w, d)
    IN /\ 2 * Len(c) <= Len(x)
       /\ \A k \in 1..Len(c) : FLe(t[c[k]], tc[k]) /\ FLe(tc[k], t[c[k] + 1])
       /\ \A k \in 1..(Len(c) - 1) : FLt(tc[k], tc[k + 1])
       /\ c = CrossingIdx(Neg(w), IF d = "down" THEN "up" ELSE "down")
       /\ CrossingFails("", t, w, d, NWaves(c), tc) = {}

WaveInv ==
  Enough => \A d \in {"down", "up"} :
    LET w == Num(x)
        t == Axis(Len(x))
        c == CrossingIdx(w, d)
        tc == CrossingTimes(t, w, d)
        n == NWaves(c)
        W == TLCEval([k \in 1..n |-> Wave(t, w, tc, k)])
    IN n > 0 =>
       /\ BSum([k \in 1..n |-> W[k].period]) = BSub(tc[Len(c)], tc[1])          \* the waves tile the record
       /\ \A k \in 1..n : /\ W[k].height[1] = 1
                          /\ W[k].period[1] = 1
                          /\ IF d = "down" THEN W[k].crest[1] >= 0 /\ W[k].trough[1] = -1 ELSE W[k].crest[1] = 1 /\ W[k].trough[1] <= 0
                          /\ FLe(tc[k], W[k].tcrest) /\ FLe(W[k].tcrest, tc[k + 1])
                          /\ FLe(tc[k], W[k].ttrough) /\ FLe(W[k].ttrough, tc[k + 1])
       /\ \A i \in (c[1] + 1)..c[Len(c)] : \E k \in 1..n : LET s == WaveSpan(t, tc, k) IN s[1] <= i /\ i <= s[2]

(* the filter with nothing to remove, and with everything *)
HighPassInv ==
  Enough => LET w == Num(x)
                t == Axis(Len(x))
                y == HighPassed(t, w, FInt(2))
            IN /\ HighPassed(t, w, BZero) = w
               /\ \A i \in 1..Len(x) : Near(y[i], VMean(w), TenPow(20))

(* -------------------------------- Fourier ------------------------------- *)
FourierInv ==
  Enough =>
    LET N == Len(x)
        w == Roots(N)
        v == Num(x)
        X == Coefs(w, v, Idx(0, N - 1))
        h == Coefs(w, v, Idx(0, N \div 2))
        E == FTimes(VSq(v), N)
        A == AllCoefs(w, v)
        B == Fast(w, [i \in 1..N |-> A[i][1]], [i \in 1..N |-> BNeg(A[i][2])], 0, 1)
    IN /\ Near(SumAbs2(X), E, TenPow(20))                                        \* Parseval
       /\ \A k \in 1..N : CNear(A[k][1], A[k][2], X[k], TenPow(24))               \* the factorised transform is the transform
       /\ \A k \in 1..N : Near(FOver(B[k][1], N), v[k], TenPow(24)) /\ Near(B[k][2], BZero, TenPow(24))
       /\ \A k \in 1..(N - 1) : LET j == N - k IN CNear(X[k + 1][1], X[k + 1][2], CConj(X[j + 1]), TenPow(24))
       /\ Near(BSum([k \in 1..Len(h) |-> FTimes(Abs2(h[k]), FoldWeight(N, k - 1))]), E, TenPow(20))
       /\ VNear(RealSignal(w, N, Idx(0, N \div 2), h), v, TenPow(22))            \* round trip

(* energy of the density: twice the energy of the bins 0 and N/2, else the signal's *)
DensityInv ==
  Enough =>
    LET N == Len(x)
        w == Roots(N)
        v == Num(x)
        h == Coefs(w, v, Idx(0, N \div 2))
        df == FRat(1, N)
        S == Density(h, df, N)
        m == VMean(v)
        ny == IF N % 2 = 0 THEN FOver(Abs2(h[Len(h)]), N * N) ELSE BZero
    IN /\ \A k \in 1..Len(S) : S[k][1] >= 0
       /\ Near(FMul(BSum(S), df), BAdd(FOver(VSq(v), N), BAdd(FSq(m), ny)), TenPow(20))

(* ------------------------------ statistics ------------------------------ *)
StatInv ==
  Enough =>
    LET v == Num(x)
        N == Len(x)
        m == VMean(v)
        s2 == Var(v)
        H == Hilbert(v)
        R == Hilbert(Rev(v))
    IN /\ FLe(VMin(v), m) /\ FLe(m, VMax(v))
       /\ s2[1] >= 0 /\ Near(s2, BSub(FOver(VSq(v), N), FSq(m)), TenPow(24))
       /\ FLe(FOver(VSq(H), N), BAdd(s2, TenPow(22)))
       /\ Near(BSum(H), BZero, TenPow(22))
       /\ \A i \in 1..N : Near(R[i], BNeg(H[N + 1 - i]), TenPow(22))              \* time reversal changes the sign of the asymmetry
       /\ Cube(Centered(Neg(v))) = BNeg(Cube(Centered(v)))
=============================================================================
