------------------------------ MODULE FreqOps ------------------------------
(***************************************************************************)
(* Actions of the toolbox between time and frequency domain: Fourier         *)
(* transform (C06), variance density (C07), band averaging (C08), band-pass   *)
(* filter (C09), synthesis (C10), coherence (C17), Welch (C20), signal        *)
(* statistics (C22).                                                        *)
(***************************************************************************)
EXTENDS TimeOps

CVec(D(_), i) == LET d == D(i) IN                            \* complex array as a sequence of pairs
  TLCEval([k \in 1..Len(d.re \o d.v) |-> IF d.c THEN <<d.re[k], d.im[k]>> ELSE <<d.v[k], BZero>>])
CLen(D(_), i) == LET d == D(i) IN IF d.c THEN Len(d.re) ELSE Len(d.v)

SmallN == 150                                               \* up to here every bin is checked, and when N has small factors only
BinsToCheck(N, n, bins) ==                                  \* bins are 0-based, n of them, of a signal of N samples
  IF n <= SmallN \/ Smooth(N) THEN Idx(0, n - 1) ELSE SelectSeq(bins, LAMBDA k : k < n)

SumAbs2(Z) == FoldLeft(LAMBDA a, z : BAdd(a, Abs2(z)), BZero, Z)

(* --------------------------- Fourier transform: C06 --------------------- *)
FreqAxisFails(p, t, N, n, f) ==
  LET df == Df(t)
      tol == FreqTol(t, N)
  IN IF Len(f) # n THEN {p \o "number-of-frequencies"}
     ELSE Fail(\A k \in 1..n : Near(f[k], FTimes(df, k - 1), tol), p \o "frequencies")

CoefFails(p, x, n, X, bins) ==
  LET N   == Len(x)
      w   == Roots(N)
      tol == BAdd(Rel(VSumAbs(x), 12), TenPow(28))
      ks  == BinsToCheck(N, n, bins)
      C   == Coefs(w, x, ks)
  IN IF Len(X) # n THEN {p \o "number-of-coefficients"}
     ELSE Fail(\A i \in 1..Len(ks) : CNear(X[ks[i] + 1][1], X[ks[i] + 1][2], C[i], tol), p \o "coefficients")

T2fFails(e, D(_)) ==                                        \* all N coefficients
  LET t == V(D, e.a.t)
      x == V(D, e.a.x)
      N == Len(x)
  IN IF ~e.ok THEN Rejected("C06:")
     ELSE IF ~(Fin(D, e.r.f) /\ Fin(D, e.r.X)) THEN {"C06:finite"}
     ELSE LET X == CVec(D, e.r.X)
          IN FreqAxisFails("C06:", t, N, N, V(D, e.r.f))
             \cup CoefFails("C06:", x, N, X, e.a.bins)
             \cup Fail(Near(SumAbs2(X), FTimes(VSq(x), N), BAdd(Rel(FTimes(VSq(x), N), 11), TenPow(26))), "C06:parseval")

T2fnFails(e, t, x, D(_)) ==                                 \* up to Nyquist
  LET N == Len(x)
      n == FoldedLen(N)
  IN IF ~e.ok THEN Rejected("C06:")
     ELSE IF ~(Fin(D, e.r.f) /\ Fin(D, e.r.X)) THEN {"C06:finite"}
     ELSE LET X == CVec(D, e.r.X)
          IN FreqAxisFails("C06:", t, N, n, V(D, e.r.f))
             \cup CoefFails("C06:", x, n, X, e.a.bins)
             \cup Fail(e.r.odd = (N % 2 = 1), "C06:parity")
             \cup (IF Len(X) # n THEN {}
                   ELSE LET E == BSum([k \in 1..n |-> FTimes(Abs2(X[k]), FoldWeight(N, k - 1))])
                        IN Fail(Near(E, FTimes(VSq(x), N), BAdd(Rel(FTimes(VSq(x), N), 11), TenPow(26))), "C06:parseval"))

UnfoldFails(e, D(_)) ==
  LET f  == V(D, e.a.f)
      X  == CVec(D, e.a.X)
      nF == Len(f)
      odd == IF e.a.odd THEN 1 ELSE 0
      nT == 2 * (nF - 1) + odd
      df == BSub(f[2], f[1])
  IN IF ~e.ok THEN Rejected("C06:")
     ELSE IF ~(Fin(D, e.r.f) /\ Fin(D, e.r.X)) THEN {"C06:finite"}
     ELSE LET fT == V(D, e.r.f)
              XT == CVec(D, e.r.X)
          IN IF Len(fT) # nT \/ Len(XT) # nT THEN {"C06:unfolded-length"}
             ELSE Fail(\A k \in 1..nT : Near(fT[k], FTimes(df, k - 1), BAdd(Rel(FTimes(df, nT), 11), FTimes(AxisRound(f), nT * 4))), "C06:unfolded-frequencies")
                  \cup Fail(\A k \in 1..nF : \/ XT[k] = X[k]
                                             \/ k = nF /\ odd = 0 /\ XT[k] = CConj(X[k]), "C06:unfolded-coefficients")
                  \cup Fail(\A k \in 2..nF : k + nF - 1 <= nT => XT[nT + 2 - k] = CConj(X[k]) \/ (k = nF /\ odd = 0), "C06:conjugate-symmetry")

F2tFails(e, D(_)) ==                                        \* real part of the inverse transform
  LET X == CVec(D, e.a.X)
      N == Len(X)
      re == [k \in 1..N |-> X[k][1]]
      im == [k \in 1..N |-> X[k][2]]
      w == Roots(N)
      ns == BinsToCheck(N, N, e.a.bins)
      tol == BAdd(Rel(FOver(BAdd(VSumAbs(re), VSumAbs(im)), N), 11), TenPow(28))
      fast == Len(ns) > 60 /\ Smooth(N)
      (* the inverse transform is the transform with the conjugates, divided by N *)
      B == IF fast THEN Fast(w, TLCEval(re), TLCEval([k \in 1..N |-> BNeg(X[k][2])]), 0, 1) ELSE <<>>
      Sum(j) == IF fast THEN B[j + 1][1] ELSE BSub(FDot(re, CosRow(w, N, j)), FDot(im, SinRow(w, N, j)))
  IN IF ~e.ok THEN Rejected("C06:")
     ELSE IF ~Fin(D, e.r.x) THEN {"C06:finite"}
     ELSE LET x == V(D, e.r.x)
          IN IF Len(x) # N THEN {"C06:number-of-samples"}
             ELSE Fail(\A i \in 1..Len(ns) : Near(x[ns[i] + 1], FOver(Sum(ns[i]), N), tol), "C06:inverse")

RoundTripFails(e, D(_)) ==
  LET x == V(D, e.a.x)
  IN IF ~e.ok THEN Rejected("C06:")
     ELSE IF ~Fin(D, e.r.x) THEN {"C06:finite"}
     ELSE Fail(VNear(V(D, e.r.x), x, BAdd(Rel(VMaxAbs(x), 10), TenPow(28))), "C06:round-trip")

(* ------------------------- variance density: C07 ------------------------ *)
DensFails(p, e, t, x, D(_)) ==
  LET N  == Len(x)
      nF == FoldedLen(N)
      df == Df(t)
      fine == [k \in 1..nF |-> FTimes(df, k - 1)]
      w  == Roots(N)
      sl == StepSlack(t)
      big == FDiv(FTimes(VSq(x), 2), FMul(df, FInt(N)))     \* bound of the density
      tol == BAdd(FMul(big, BAdd(TenPow(10), sl)), TenPow(27))
      fast == nF > SmallN /\ Smooth(N)
      All == IF fast THEN AllCoefs(w, x) ELSE <<>>
      Co(k) == IF fast THEN All[k + 1] ELSE Coef(w, x, k)
      Den(k) == FDiv(FTimes(Abs2(Co(k)), 2), FMul(df, FMul(FInt(N), FInt(N))))
      f == V(D, e.r.f)
      S == V(D, e.r.S)
      Rest(q) == Idx((nF \div q) * q, nF - 1)               \* fine bins beyond the last whole block
      ft == FreqTol(t, N)
      OkF(q) == \A i \in 1..Len(f) :
                  Near(f[i], FOver(FTimes(df, 2 * (i - 1) * q + q - 1), 2), ft)
      OkS(q) == \A j \in ToSet(BinsToCheck(N, nF \div q, e.a.bins)) :
                  LET i == j + 1
                  IN Near(S[i], FOver(BSum([m \in 1..q |-> Den((i - 1) * q + m - 1)]), q), tol)
      Nyq == IF N % 2 = 0 THEN Abs2(Co(N \div 2)) ELSE BZero
      Total == FOver(BAdd(BAdd(FTimes(VSq(x), N), FSq(BSum(x))), Nyq), 2)   \* sum of |X_k|^2, k = 0..N/2
      OkE(q) == LET used == BSub(Total, BSum([i \in 1..Len(Rest(q)) |-> Abs2(Co(Rest(q)[i]))]))
                    spec == FDiv(FTimes(used, 2), FMul(FInt(N), FInt(N)))
                    obs  == FMul(FTimes(BSum(S), q), df)
                IN Near(obs, spec, BAdd(FMul(FDiv(FTimes(VSq(x), 2), FInt(N)), FTimes(BAdd(TenPow(10), sl), 4)), TenPow(27)))
      qs == AvgFactors(fine, e.a.want)
      Fs(q) == Fail(OkF(q), p \o "frequencies") \cup Fail(OkS(q), p \o "density") \cup Fail(OkE(q), p \o "energy")
  IN IF ~e.ok THEN (IF \E q \in qs : nF \div q < e.a.least THEN {} ELSE Rejected(p))
     ELSE IF ~(Fin(D, e.r.f) /\ Fin(D, e.r.S)) THEN {p \o "finite"}
     ELSE IF Len(S) # Len(f) \/ \A q \in qs : Len(f) # nF \div q THEN {p \o "number-of-bands"}
     ELSE Fail(\A i \in 1..Len(S) : S[i][1] >= 0, p \o "non-negative")
          \cup LET qq == {q \in qs : Len(f) = nF \div q}
               IN IF \E q \in qq : Fs(q) = {} THEN {} ELSE Fs(CHOOSE q \in qq : TRUE)

DensFreqFails(e, D(_)) ==
  LET f == V(D, e.a.f)
      X == CVec(D, e.a.X)
      df == BSub(f[2], f[1])
      S0 == Density(X, df, e.a.N)
      qs == AvgFactors(f, e.a.want)
      tol == BAdd(Rel(VMaxAbs(S0), 10), TenPow(27))
      Fs(q) == Fail(VNear(V(D, e.r.f), Averaged(f, q), Rel(VMaxAbs(f), 11)), "C07:frequencies")
               \cup Fail(VNear(V(D, e.r.S), Averaged(S0, q), tol), "C07:density")
  IN IF ~e.ok THEN Rejected("C07:")
     ELSE IF ~(Fin(D, e.r.f) /\ Fin(D, e.r.S)) THEN {"C07:finite"}
     ELSE IF \E q \in qs : Fs(q) = {} THEN {} ELSE Fs(CHOOSE q \in qs : TRUE)

(* --------------------------- band averaging: C08 ------------------------ *)
AvgFails(e, D(_)) ==
  LET f == V(D, e.a.f)
      d == D(e.a.S)
      qs == AvgFactors(f, e.a.want)
      A(q, v, r) == VNear(r, Averaged(v, q), BAdd(Rel(VMaxAbs(v), 11), TenPow(28)))
      rS == D(e.r.S)
      Fs(q) == (IF Len(V(D, e.r.f)) # Len(f) \div q THEN {"C08:number-of-bands"}
                ELSE Fail(A(q, f, V(D, e.r.f)), "C08:band-frequencies"))
               \cup (IF d.c THEN Fail((rS.c \/ rS.v = <<>>) /\ A(q, d.re, rS.re) /\ A(q, d.im, rS.im), "C08:band-means")
                     ELSE Fail(~rS.c /\ A(q, d.v, rS.v), "C08:band-means"))
  IN IF ~e.ok THEN Rejected("C08:")
     ELSE IF ~(Fin(D, e.r.f) /\ rS.fin) THEN {"C08:finite"}
     ELSE IF \E q \in qs : Fs(q) = {} THEN {} ELSE Fs(CHOOSE q \in qs : TRUE)

(* -------------------------- band-pass filter: C09 ----------------------- *)
PassSlack(t, N) == BAdd(FMul(Df(t), TenPow(7)), FTimes(FreqTol(t, N), 4))
PassAt(df, N, k, lo, hi, tol, exact) == Passes(k, FTimes(df, k), FTimes(df, N \div 2), lo, hi, tol, exact)
BandFails(e, t, x, z) ==                                    \* z: the filtered signal
  LET N == Len(x)
      w == Roots(N)
      ks == BinsToCheck(N, FoldedLen(N), e.a.bins)
      X == Coefs(w, x, ks)
      Z == Coefs(w, z, ks)
      tol == BAdd(Rel(VSumAbs(x), 10), TenPow(27))
      zero == <<BZero, BZero>>
      exact == ExactGrid(t)
      df == Df(t)
      slack == PassSlack(t, N)
      Pass == TLCEval([i \in 1..Len(ks) |-> PassAt(df, N, ks[i], e.a.lo, e.a.hi, slack, exact)])
      Ok(i, want) == Pass[i] # want \/ CNear(Z[i][1], Z[i][2], IF want = "yes" THEN X[i] ELSE zero, tol)
      EdgeOk(i) == Pass[i] # "edge"
                   \/ CNear(Z[i][1], Z[i][2], X[i], tol) \/ CNear(Z[i][1], Z[i][2], zero, tol)
  IN IF Len(z) # N THEN {"C09:number-of-samples"}
     ELSE Fail(\A i \in 1..Len(ks) : Ok(i, "yes"), "C09:components-in-the-band-kept")
          \cup Fail(\A i \in 1..Len(ks) : Ok(i, "no"), "C09:components-outside-the-band-removed")
          \cup Fail(\A i \in 1..Len(ks) : EdgeOk(i), "C09:component-on-the-limit-kept-or-removed")
BandOpFails(e, t, x, D(_)) ==
  IF ~e.ok THEN Rejected("C09:")
  ELSE IF ~Fin(D, e.r.z) THEN {"C09:finite"}
  ELSE BandFails(e, t, x, V(D, e.r.z))
       \cup (IF e.op = "series.band" THEN Fail(V(D, e.r.t) = t, "C09:time-axis-kept") ELSE {})
(* the bands [0, fc) and [fc, inf) together give the signal without its mean *)
BandPartFails(e, D(_)) ==
  LET x == V(D, e.a.x)
      m == VMean(x)
  IN IF ~e.ok THEN Rejected("C09:")
     ELSE IF ~(Fin(D, e.r.z1) /\ Fin(D, e.r.z2)) THEN {"C09:finite"}
     ELSE LET a == V(D, e.r.z1)
              b == V(D, e.r.z2)
              tol == TLCEval(BAdd(Rel(VMaxAbs(x), 9), TenPow(27)))
          IN Fail(Len(a) = Len(x) /\ Len(b) = Len(x) /\
                  \A n \in 1..Len(x) : Near(BAdd(a[n], b[n]), BSub(x[n], m), tol), "C09:bands-partition-the-signal")
BandFreqFails(e, D(_)) ==
  LET f == V(D, e.a.f)
      X == CVec(D, e.a.X)
      n == Len(f)
      Z == CVec(D, e.r.Z)
      tol == Rel(BSub(f[2], f[1]), 9)
      s(k) == Passes(k - 1, f[k], f[n], e.a.lo, e.a.hi, tol, TRUE)
      zero == <<BZero, BZero>>
  IN IF ~e.ok THEN Rejected("C09:")
     ELSE IF ~Fin(D, e.r.Z) THEN {"C09:finite"}
     ELSE IF Len(Z) # n THEN {"C09:number-of-coefficients"}
     ELSE Fail(\A k \in 1..n : s(k) = "yes" => Z[k] = X[k], "C09:components-in-the-band-kept")
          \cup Fail(\A k \in 1..n : s(k) = "no" => Z[k] = zero, "C09:components-outside-the-band-removed")
          \cup Fail(\A k \in 1..n : Z[k] = X[k] \/ Z[k] = zero, "C09:component-on-the-limit-kept-or-removed")

(* ------------------------------ synthesis: C10 -------------------------- *)
SynthFails(e, D(_)) ==
  LET f  == V(D, e.a.f)
      S  == V(D, e.a.S)
      dt == e.a.dt
      t  == V(D, e.r.t)
      x  == V(D, e.r.x)
      n  == Len(t)
      ne == IF n % 2 = 0 THEN n ELSE n + 1
      full == IF n % 2 = 0 THEN x ELSE Append(x, BNeg(BSum(x)))
      df == FDiv(One, FTimes(dt, ne))
      w  == Roots(ne)
      ks == IF ne \div 2 <= SmallN \/ Smooth(ne) THEN Idx(1, ne \div 2) ELSE SelectSeq(e.a.bins, LAMBDA k : 1 <= k /\ k <= ne \div 2)
      X  == Coefs(w, full, ks)
      A2(k) == {FMul(FTimes(v, 2), df) : v \in InterpSet(f, S, FTimes(df, k), FMul(df, TenPow(8)))}  \* squared amplitude
      O2(i) == FDiv(FTimes(Abs2(X[i]), 4), FMul(FInt(ne), FInt(ne)))
      tol == BAdd(Rel(FMul(VMax(S), df), 9), TenPow(27))
      atol == BAdd(FMul(dt, TenPow(8)), FTimes(FMul(FMax(FAbs(e.a.t0), FAbs(e.a.t1)), Ulp), 8))
      inner == SelectSeq(Idx(1, Len(ks)), LAMBDA i : 2 * ks[i] # ne /\ FLt(TenPow(26), O2(i)))
      Phase(i) == LET m == FSqrt(Abs2(X[inner[i]])) IN <<FDiv(X[inner[i]][1], m), FDiv(X[inner[i]][2], m)>>
      P == TLCEval([i \in 1..Len(inner) |-> Phase(i)])
      Sum2(Q) == Abs2(<<BSum([i \in 1..Len(Q) |-> Q[i][1]]), BSum([i \in 1..Len(Q) |-> Q[i][2]])>>)
  IN IF ~e.ok THEN Rejected("C10:")
     ELSE IF ~(Fin(D, e.r.t) /\ Fin(D, e.r.x)) THEN {"C10:finite"}
     ELSE IF n \notin AxisCounts(e.a.t0, e.a.t1, dt) \/ Len(x) # n THEN {"C10:number-of-samples"}
     ELSE Fail(\A i \in 1..n : Near(t[i], BAdd(e.a.t0, FTimes(dt, i - 1)), atol), "C10:time-axis")
          \cup Fail(Near(BSum(full), BZero, BAdd(Rel(VSumAbs(full), 10), TenPow(27))), "C10:zero-mean")
          \cup Fail(\A i \in 1..Len(ks) : 2 * ks[i] = ne \/ \E a \in A2(ks[i]) : Near(O2(i), a, tol), "C10:amplitudes")
          \cup Fail(\A i \in 1..Len(ks) : 2 * ks[i] # ne \/ \E a \in A2(ks[i]) : FLe(O2(i), BAdd(a, tol)), "C10:nyquist-amplitude")
          \cup (IF Len(inner) < 80 THEN {}
                ELSE Fail(FLe(Sum2(P), FInt(30 * Len(inner))), "C10:phases-spread")
                     \cup Fail(FLe(Sum2([i \in 1..Len(inner) |-> CMul(P[i], P[i])]), FInt(30 * Len(inner))), "C10:phases-spread"))

(* The history of synthesis in one process.  Phases come from one random stream, which a seeded    *)
(* request restarts; requests without a seed continue it.  So an unseeded result differs from all    *)
(* results drawn since the stream was last restarted (the same restart may be followed by the same    *)
(* requests and then gives the same series again), and from the seeded ones.                          *)
SynthKey(e) == <<e.a.f, e.a.S, e.a.t0, e.a.t1, e.a.dt>>
Restarts(memo) == Len(SelectSeq(memo, LAMBDA m : m.seed >= 0))
SynthSeedFails(e, hp, D(_)) ==
  IF ~e.ok THEN {}
  ELSE LET old == SelectSeq(hp.synth, LAMBDA m : m.key = SynthKey(e))
           same == SelectSeq(old, LAMBDA m : e.a.seed >= 0 /\ m.seed = e.a.seed)
           other == SelectSeq(old, LAMBDA m : IF e.a.seed < 0 THEN m.seed >= 0 \/ m.gen = Restarts(hp.synth) ELSE m.seed >= 0 /\ m.seed # e.a.seed)
           x == V(D, e.r.x)
           moving == Len(x) >= 4 /\ VMaxAbs(x)[1] # 0 /\ ~TooFine(x)    \* numbers next to the recorded resolution show no phases
       IN Fail(\A i \in 1..Len(same) : VNear(x, V(D, same[i].x), Rel(VMaxAbs(x), 12)), "C10:same-seed-same-series")
          \cup Fail(moving => \A i \in 1..Len(other) : ~VNear(x, V(D, other[i].x), Rel(VMaxAbs(x), 6)), "C10:fresh-phases")
SynthMemo(e, hp) == IF ~e.ok THEN hp.synth ELSE Append(hp.synth, [key |-> SynthKey(e), seed |-> e.a.seed, gen |-> Restarts(hp.synth), x |-> e.r.x])

(* ------------------------------ coherence: C17 -------------------------- *)
CohFails(e, D(_)) ==
  LET f == V(D, e.a.f)
      X1 == CVec(D, e.a.X1)
      X2 == CVec(D, e.a.X2)
      n == Len(f)
      qs == AvgFactors(f, e.a.want)
      S11 == TLCEval([k \in 1..n |-> Abs2(X1[k])])
      S22 == TLCEval([k \in 1..n |-> Abs2(X2[k])])
      S12 == TLCEval([k \in 1..n |-> CMul(X1[k], CConj(X2[k]))])
      re == TLCEval([k \in 1..n |-> S12[k][1]])
      im == TLCEval([k \in 1..n |-> S12[k][2]])
      Coh(q, i) == FDiv(Abs2(<<BlockMean(re, q, i), BlockMean(im, q, i)>>),
                        FMul(FMax(BlockMean(S11, q, i), TenPow(10)), FMax(BlockMean(S22, q, i), TenPow(10))))
      c == V(D, e.r.c)
      one == BAdd(One, TenPow(9))
      Fs(q) == IF Len(c) # n \div q \/ Len(V(D, e.r.f)) # Len(c) THEN {"C17:number-of-bands"}
               ELSE Fail(VNear(V(D, e.r.f), Averaged(f, q), Rel(VMaxAbs(f), 11)), "C17:frequencies")
                    \cup Fail(\A i \in 1..Len(c) : Near(c[i], Coh(q, i), TenPow(9)), "C17:coherence")
  IN IF ~e.ok THEN Rejected("C17:")
     ELSE IF ~(Fin(D, e.r.f) /\ Fin(D, e.r.c)) THEN {"C17:finite"}
     ELSE Fail(\A i \in 1..Len(c) : c[i][1] >= 0 /\ FLe(c[i], one), "C17:between-0-and-1")
          \cup (IF \E q \in qs : Fs(q) = {} THEN {} ELSE Fs(CHOOSE q \in qs : TRUE))

(* -------------------------------- Welch: C20 ---------------------------- *)
(* admitted segment lengths and overlaps for a signal of N samples with step dt *)
SegLens(e, N, dt) ==
  IF e.a.usedf
  THEN LET q == FDiv(FDiv(One, dt), e.a.want)
           k == FRound(q)
           ms == IF Near(BSub(q, FInt(FFloor(q))), Half, TenPow(6)) THEN {FFloor(q), FFloor(q) + 1} ELSE {k}
       IN {Min2(m, N) : m \in ms}
  ELSE {Min2(IF e.a.nperseg = 0 THEN 256 ELSE e.a.nperseg, N)}
Overlaps(e, M) ==
  IF e.a.usedf THEN (IF M % 2 = 0 THEN {M \div 2} ELSE {M \div 2, M \div 2 + 1})
  ELSE IF e.a.noverlap = 0 THEN {M \div 2} ELSE {e.a.noverlap}
WelchFails(e, dt, slack, x, D(_)) ==                         \* slack: relative uncertainty of dt
  LET N == Len(x)
      f == V(D, e.r.f)
      S == V(D, e.r.S)
      Pad(M) == IF e.a.nfft = 0 THEN M ELSE e.a.nfft
      cand == {<<M, o>> : M \in SegLens(e, N, dt), o \in 0..N} 
      cfg == {c \in cand : c[2] \in Overlaps(e, c[1]) /\ c[2] < c[1]}
      ks(L) == BinsToCheck(L, FoldedLen(L), e.a.bins)
      Fs(c) == LET L == Pad(c[1])
                   n == FoldedLen(L)
                   W == Welch(x, dt, e.a.window, c[1], c[2], L, ks(L))
                   tol == BAdd(Rel(FMul(VSq(x), dt), 9), BAdd(FMul(VMax(W), FTimes(slack, 4)), TenPow(27)))
               IN IF Len(f) # n \/ Len(S) # n THEN {"C20:number-of-frequencies"}
                  ELSE Fail(\A k \in 1..n : Near(f[k], FDiv(FInt(k - 1), FTimes(dt, L)), FMul(FDiv(One, dt), slack)), "C20:frequencies")
                       \cup Fail(\A i \in 1..Len(ks(L)) : Near(S[ks(L)[i] + 1], W[i], tol), "C20:density")
  IN IF cfg = {} \/ (e.a.usedf /\ FLt(FTimes(FMul(e.a.want, dt), 3), Two) = FALSE) THEN {}   \* no segment of two samples
     ELSE IF ~e.ok THEN Rejected("C20:")
     ELSE IF ~(Fin(D, e.r.f) /\ Fin(D, e.r.S)) THEN {"C20:finite"}
     ELSE Fail(\A i \in 1..Len(S) : S[i][1] >= 0, "C20:non-negative")
          \cup (IF \E c \in cfg : Fs(c) = {} THEN {} ELSE Fs(CHOOSE c \in cfg : TRUE))

(* -------------------------- signal statistics: C22 ---------------------- *)
Centered(x) == LET m == VMean(x) IN TLCEval([i \in 1..Len(x) |-> BSub(x[i], m)])
Var(x) == FOver(VSq(Centered(x)), Len(x))
Cube(y) == FOver(BSum([i \in 1..Len(y) |-> FMul(FMul(y[i], y[i]), y[i])]), Len(y))
Hilbert(x) ==                                               \* imaginary part of the analytic signal
  LET N == Len(x)
      w == Roots(N)
      m == (N - 1) \div 2
      X == Coefs(w, x, Idx(1, m))
      re == [k \in 1..m |-> X[k][1]]
      im == [k \in 1..m |-> X[k][2]]
      (* for long signals by the fast transform of the conjugates of X at 1..m *)
      Up == Fast(w, TLCEval([k \in 1..N |-> IF k \in 2..(m + 1) THEN re[k - 1] ELSE BZero]),
                    TLCEval([k \in 1..N |-> IF k \in 2..(m + 1) THEN BNeg(im[k - 1]) ELSE BZero]), 0, 1)
  IN IF N > 60 /\ Smooth(N) THEN LET U == Up IN TLCEval([n \in 1..N |-> FOver(FTimes(BNeg(U[n][2]), 2), N)])
     ELSE TLCEval([n \in 1..N |->
       FOver(FTimes(BAdd(FDot(re, [k \in 1..m |-> w.s[(((n - 1) * k) % N) + 1]]),
                         FDot(im, [k \in 1..m |-> w.c[(((n - 1) * k) % N) + 1]])), 2), N)])
(* skewness and asymmetry do not depend on the scale: use the signal divided by its largest value *)
Unit(x) == LET m == VMaxAbs(x) IN IF m[1] = 0 THEN x ELSE TLCEval([i \in 1..Len(x) |-> FDiv(x[i], m)])
StatFails(e, x0) ==
  LET v == e.r.v
      x == IF e.a.name \in {"skewness", "asymmetry"} THEN Unit(x0) ELSE x0
      s2 == Var(x)
      s3 == FMul(s2, FSqrt(s2))
      mx == VMaxAbs(x)
      sd == FSqrt(s2)
      tiny == FLe(s2, BAdd(TenPow(20), Rel(FSq(mx), 12)))              \* (nearly) constant signal
      (* the round-off of the samples, relative to their spread *)
      noise == BAdd(TenPow(9), Rel(FDiv(mx, FMax(sd, TenPow(20))), 12))
  IN IF ~e.ok THEN Rejected("C22:")
     ELSE CASE e.a.name = "max"  -> Fail(v = VMax(x), "C22:maximum")
            [] e.a.name = "min"  -> Fail(v = VMin(x), "C22:minimum")
            [] e.a.name = "mean" -> Fail(Near(v, VMean(x), BAdd(Rel(VMaxAbs(x), 11), TenPow(29))), "C22:mean")
            [] e.a.name = "var"  -> Fail(Near(v, s2, BAdd(BAdd(Rel(s2, 9), FMul(sd, Rel(mx, 12))), BAdd(FSq(Rel(mx, 12)), TenPow(29)))), "C22:variance")
            [] e.a.name = "skewness"  -> Fail(tiny \/ Near(v, FDiv(Cube(Centered(x)), s3), noise), "C22:skewness")
            [] e.a.name = "asymmetry" -> Fail(tiny \/ Near(v, FDiv(Cube(Hilbert(x)), s3), noise), "C22:asymmetry")
=============================================================================
