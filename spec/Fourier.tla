------------------------------ MODULE Fourier ------------------------------
(***************************************************************************)
(* Discrete Fourier transform, variance density, band averaging, band-pass   *)
(* filter, synthesis of time series, Welch estimate and coherence, by their  *)
(* definitions.                                                             *)
(***************************************************************************)
EXTENDS Vec

(* ------------------- roots of unity: c[j+1], s[j+1] = cos, sin (2 pi j / N) *)
Roots(N) ==
  LET a  == FDiv(TwoPi, FInt(N))
      c1 == FCos(a)
      s1 == FSin(a)
      Step(acc, j) == LET c == acc[1][j] IN
                      LET s == acc[2][j] IN
                      <<Append(acc[1], BSub(FMul(c, c1), FMul(s, s1))),
                        Append(acc[2], BAdd(FMul(c, s1), FMul(s, c1)))>>
      R == FoldLeft(Step, <<<<One>>, <<BZero>>>>, Idx(1, N - 1))
  IN TLCEval([c |-> R[1], s |-> R[2]])

(* cos(2 pi k n / N) for n = 0..N-1 as a sequence; likewise sin *)
CosRow(w, N, k) == [n \in 1..N |-> w.c[(((n - 1) * k) % N) + 1]]
SinRow(w, N, k) == [n \in 1..N |-> w.s[(((n - 1) * k) % N) + 1]]

(* Fourier coefficient k of the real signal x *)
Coef(w, x, k) == LET N == Len(x) IN <<FDot(x, CosRow(w, N, k)), BNeg(FDot(x, SinRow(w, N, k)))>>

(* The same coefficients, all of them, by factorisation of N (Cooley-Tukey): with M = p m, the transform of   *)
(* length M is made of p transforms of length m of every p-th sample.  MSignal checks that it is the sum      *)
(* above.  Fast(w, re, im, o, st) transforms the samples o, o + st, o + 2 st, ... of the complex signal.      *)
LeastFactor(n) == LET ps == {p \in 2..Min2(n, 40) : n % p = 0} IN IF ps = {} THEN n ELSE CHOOSE p \in ps : \A q \in ps : p <= q
RECURSIVE Smooth(_)
Smooth(n) == n = 1 \/ (n > 1 /\ LeastFactor(n) <= 40 /\ Smooth(n \div LeastFactor(n)))
RECURSIVE Fast(_, _, _, _, _)
Fast(w, re, im, o, st) ==
  LET N == Len(re)
      M == N \div st
  IN IF M = 1 THEN << <<re[o + 1], im[o + 1]>> >>
     ELSE LET p == LeastFactor(M)
              m == M \div p
              part == TLCEval([r \in 1..p |-> Fast(w, re, im, o + (r - 1) * st, st * p)])
          IN TLCEval([k \in 1..M |->
               LET j == ((k - 1) % m) + 1
                   s == [r \in 1..p |-> LET q == ((st * (((r - 1) * (k - 1)) % M)) % N) + 1
                                            z == part[r][j] IN
                          <<BAdd(FMul(z[1], w.c[q]), FMul(z[2], w.s[q])), BSub(FMul(z[2], w.c[q]), FMul(z[1], w.s[q]))>>]
               IN <<BSum([r \in 1..p |-> s[r][1]]), BSum([r \in 1..p |-> s[r][2]])>>])
AllCoefs(w, x) == Fast(w, x, TLCEval([i \in 1..Len(x) |-> BZero]), 0, 1)
Coefs(w, x, ks) ==
  IF Len(ks) > 60 /\ Smooth(Len(x))
    THEN LET A == AllCoefs(w, x) IN TLCEval([i \in 1..Len(ks) |-> A[ks[i] + 1]])
    ELSE TLCEval([i \in 1..Len(ks) |-> Coef(w, x, ks[i])])
Abs2(z) == BAdd(FMul(z[1], z[1]), FMul(z[2], z[2]))
CMul(a, b) == <<BSub(FMul(a[1], b[1]), FMul(a[2], b[2])), BAdd(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
CConj(a) == <<a[1], BNeg(a[2])>>
CNear(re, im, z, tol) == Near(re, z[1], tol) /\ Near(im, z[2], tol)

FoldedLen(N) == N \div 2 + 1
Df(t) == FDiv(One, FTimes(MeanStep(t), Len(t)))             \* frequency step 1 / (N dt)
FreqTol(t, N) == FMul(FTimes(Df(t), N), StepSlack(t))       \* uncertainty of the frequencies k df, k <= N

(* weight of folded bin k in a real signal of length N: 1 for 0 and Nyquist, else 2 *)
FoldWeight(N, k) == IF k = 0 \/ 2 * k = N THEN 1 ELSE 2
(* the real signal with folded coefficients X[i] at bins ks[i], all others zero *)
RealSignal(w, N, ks, X) ==
  TLCEval([n \in 1..N |->
    FOver(BSum([i \in 1..Len(ks) |->
      LET j == (((n - 1) * ks[i]) % N) + 1
      IN FTimes(BSub(FMul(X[i][1], w.c[j]), FMul(X[i][2], w.s[j])), FoldWeight(N, ks[i]))]), N)])

(* ----------------------------- band filter ------------------------------ *)
(* Bin k >= 1 with frequency f is passed by the band [lo, hi) when lo <= f < hi; the  *)
(* top bin is passed too when hi is at or above it; nothing is passed when lo is at   *)
(* or above the top bin.  "edge" when f is within tol of a limit, unless the          *)
(* frequencies are exact numbers.                                                     *)
Passes(k, f, ftop, lo, hi, tol, exact) ==
  IF k = 0 THEN "no"
  ELSE LET above == IF ~FIs(lo) THEN (IF lo = NInf THEN "yes" ELSE "no")
                    ELSE IF exact /\ f = lo THEN (IF f = ftop THEN "no" ELSE "yes")
                    ELSE IF Near(f, lo, tol) THEN "edge"
                    ELSE IF FLe(lo, f) THEN "yes" ELSE "no"
           below == IF ~FIs(hi) THEN (IF hi = PInf THEN "yes" ELSE "no")
                    ELSE IF exact /\ f = hi THEN (IF f = ftop THEN "yes" ELSE "no")
                    ELSE IF Near(f, hi, tol) THEN (IF FLe(BAdd(ftop, tol), hi) THEN "yes" ELSE "edge")
                    ELSE IF FLt(f, hi) THEN "yes" ELSE "no"
       IN IF above = "no" \/ below = "no" THEN "no"
          ELSE IF above = "edge" \/ below = "edge" THEN "edge" ELSE "yes"

HighPassed(t, x, fcut) ==                                   \* x minus its components 0 < f < fcut
  LET N  == Len(x)
      w  == Roots(N)
      df == Df(t)
      ftop == FTimes(df, N \div 2)
      ks == SelectSeq(Idx(1, N \div 2), LAMBDA k : FLt(FTimes(df, k), fcut) \/ FLe(ftop, fcut))
      low == RealSignal(w, N, ks, Coefs(w, x, ks))
  IN IF FLe(fcut, BZero) THEN x ELSE TLCEval([n \in 1..N |-> BSub(x[n], low[n])])

(* with a cut-off that is, but for round-off, the frequency of a component, that component is either kept or removed *)
HighPasses(t, x, fcut) ==
  LET N == Len(x)
      tol == FreqTol(t, N)
      at == FDiv(fcut, Df(t))
      tie == /\ FIs(fcut)
             /\ \E k \in {FFloor(at), FFloor(at) + 1} : k \in 1..(N \div 2) /\ Near(FTimes(Df(t), k), fcut, tol)
  IN IF fcut[1] = 0 THEN {x}
     ELSE IF tie THEN {HighPassed(t, x, BSub(fcut, FTimes(tol, 2))), HighPassed(t, x, BAdd(fcut, FTimes(tol, 2)))}
     ELSE {HighPassed(t, x, fcut)}

(* ---------------------------- band averaging ---------------------------- *)
(* dfDesired / df rounded to the nearest integer, at least 1; both neighbours at a tie *)
AvgFactors(f, want) ==
  IF want[1] = 0 \/ ~FIs(want) THEN {1}
  ELSE LET q == FDiv(want, BSub(f[2], f[1]))
           fl == FFloor(q)
           fr == BSub(q, FInt(fl))
           tie == Near(fr, Half, BAdd(TenPow(9), Rel(q, 11)))
           ns == IF tie THEN {fl, fl + 1} ELSE {IF FLt(fr, Half) THEN fl ELSE fl + 1}
       IN {Max2(n, 1) : n \in ns}
BlockMean(s, q, i) == FOver(BSum(SubSeq(s, (i - 1) * q + 1, i * q)), q)
Averaged(s, q) == TLCEval([i \in 1..(Len(s) \div q) |-> BlockMean(s, q, i)])

(* variance density from folded coefficients (sequence of pairs) *)
Density(X, df, N) ==
  LET den == FMul(df, FMul(FInt(N), FInt(N)))
  IN TLCEval([k \in 1..Len(X) |-> FDiv(FTimes(Abs2(X[k]), 2), den)])

(* ------------------------------ synthesis ------------------------------- *)
(* admitted numbers of samples of a time axis from t0 to t1 with step dt *)
AxisCounts(t0, t1, dt) ==
  LET q == FDiv(BSub(t1, t0), dt)
      k == FRound(q)
  IN IF FLe(FAbs(BSub(q, FInt(k))), TenPow(7)) THEN {k + 1}
     ELSE IF FLe(FAbs(BSub(q, FInt(k))), TenPow(5)) THEN {k, k + 1}
     ELSE {FFloor(q) + 1}

(* linear interpolation of (f, S) at g, zero outside; a set: at the ends of f both *)
(* the end value and zero are admitted                                            *)
InterpSet(f, S, g, tol) ==
  LET n == Len(f)
      out == (IF FLt(g, BSub(f[1], tol)) \/ FLt(BAdd(f[n], tol), g) THEN TRUE ELSE FALSE)
      edge == Near(g, f[1], tol) \/ Near(g, f[n], tol)
      j == Min2(n - 1, Max2(1, LastUpTo(f, g)))
      h == BSub(f[j + 1], f[j])
      v == BAdd(S[j], FDiv(FMul(BSub(S[j + 1], S[j]), BSub(g, f[j])), h))
  IN IF out THEN {BZero}
     ELSE IF n = 1 THEN {BZero, S[1]}
     ELSE IF edge THEN {BZero, IF Near(g, f[1], tol) THEN S[1] ELSE S[n]}
     ELSE {v}

(* ------------------------------- windows -------------------------------- *)
Window(kind, M) ==                                          \* periodic windows
  IF kind = "boxcar" \/ M = 1 THEN TLCEval([n \in 1..M |-> One])
  ELSE LET w == Roots(M)
       IN IF kind = "hann" THEN TLCEval([n \in 1..M |-> FOver(BSub(One, w.c[n]), 2)])
          ELSE IF kind = "blackman"
          THEN TLCEval([n \in 1..M |-> BAdd(BSub(FRat(42, 100), FOver(w.c[n], 2)), FMul(FRat(8, 100), w.c[((2 * (n - 1)) % M) + 1]))])
          ELSE IF kind = "bartlett"                         \* one minus the distance from the middle
          THEN TLCEval([n \in 1..M |-> FRat(IF 2 * (n - 1) <= M THEN 2 * (n - 1) ELSE 2 * (M - n + 1), M)])
          ELSE TLCEval([n \in 1..M |-> BSub(FRat(54, 100), FMul(FRat(46, 100), w.c[n]))])   \* hamming

(* Welch estimate: segments of M samples, overlapping by V, mean removed, windowed, *)
(* zero-padded to L; one-sided density; mean over the segments; at the bins ks      *)
Welch(x, dt, kind, M, V, L, ks) ==
  LET win == Window(kind, M)
      w   == Roots(L)
      K   == (Len(x) - V) \div (M - V)
      seg == TLCEval([i \in 1..K |->
               LET a == SubSeq(x, (i - 1) * (M - V) + 1, (i - 1) * (M - V) + M)
                   m == VMean(a)
               IN TLCEval([n \in 1..L |-> IF n <= M THEN FMul(win[n], BSub(a[n], m)) ELSE BZero])])
      scale == FDiv(dt, VSq(win))
      C == TLCEval([i \in 1..K |-> Coefs(w, seg[i], ks)])
  IN TLCEval([j \in 1..Len(ks) |->
       LET P == FOver(BSum([i \in 1..K |-> Abs2(C[i][j])]), K)
       IN FTimes(FMul(P, scale), FoldWeight(L, ks[j]))])
=============================================================================
