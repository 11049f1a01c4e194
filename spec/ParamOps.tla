------------------------------ MODULE ParamOps ------------------------------
(***************************************************************************)
(* Actions on spectra: moments, wave height and mean periods (C11), peak      *)
(* periods (C12), the Spectrum object and its histories (C13), JONSWAP and    *)
(* Pierson-Moskowitz spectra (C14), Battjes-Groenendijk distribution (C21).   *)
(*                                                                          *)
(* Heap entries of Spectrum objects:  [kind |-> "spec", f, S, at]  where at is  *)
(* the record of the parameters determined so far (Absent when not yet).      *)
(***************************************************************************)
EXTENDS FreqOps

Absent == <<6>>
Minus1 == FInt(-1)                                         \* "limit not given"

(* ------------------------------- moments -------------------------------- *)
(* Simpson's rule on a uniform axis with step h; an even number of points uses *)
(* the parabola through the last three points for the last interval.           *)
SimpsonOdd(y, n, h) ==                                      \* first n points, n odd
  IF n < 3 THEN BZero
  ELSE LET ends == BAdd(y[1], y[n])
           odd  == BSum([i \in 1..((n - 1) \div 2) |-> y[2 * i]])
           even == BSum([i \in 1..((n - 3) \div 2) |-> y[2 * i + 1]])
       IN FOver(FMul(h, BAdd(ends, BAdd(FTimes(odd, 4), FTimes(even, 2)))), 3)
Simpson(y, h) ==
  LET n == Len(y)
  IN IF n <= 1 THEN BZero
     ELSE IF n = 2 THEN FOver(FMul(h, BAdd(y[1], y[2])), 2)
     ELSE IF n % 2 = 1 THEN SimpsonOdd(y, n, h)
     ELSE BAdd(SimpsonOdd(y, n - 1, h),
               FOver(FMul(h, BSub(BAdd(FTimes(y[n], 5), FTimes(y[n - 1], 8)), y[n - 2])), 12))

(* the indices of the axis values nearest to v (two when v is halfway) *)
NearIdx(f, v) ==
  LET n == Len(f)
      h == MeanStep(f)
      j == Min2(n - 1, Max2(1, LastUpTo(f, v)))
  IN IF v = PInf THEN {n} ELSE IF v = NInf THEN {1}
     ELSE IF FLe(v, f[1]) THEN {1} ELSE IF FLe(f[n], v) THEN {n}
     ELSE LET a == BSub(v, f[j])
              b == BSub(f[j + 1], v)
          IN IF Near(a, b, Rel(h, 7)) THEN {j, j + 1}
             ELSE IF FLt(a, b) THEN {j} ELSE {j + 1}

(* order-m moment between fmin and fmax: the set of admitted values (of pairs     *)
(* <<value, magnitude>>); empty when the moment is not defined (no bins, or the    *)
(* integral of the tail diverges)                                               *)
MomentSet(f, S, m, fmin, fmax) ==
  LET cut  == m < 0 /\ f[1][1] = 0
      fr   == IF cut THEN SubSeq(f, 2, Len(f)) ELSE f
      sp   == IF cut THEN SubSeq(S, 2, Len(S)) ELSE S
      n    == Len(fr)
      h    == MeanStep(f)
      w    == TLCEval([i \in 1..n |-> IF sp[i][1] = 0 THEN BZero ELSE FPow(fr[i], m)])
      y    == TLCEval([i \in 1..n |-> FMul(sp[i], w[i])])
      \* the magnitude includes the resolution of the recorded densities (times the 10^9 of MTol)
      Part(a, b) == LET z == SubSeq(y, a, b) IN <<Simpson(z, h), FMul(BAdd(VSumAbs(z), FTimes(FMul(VSumAbs(SubSeq(w, a, b)), TenPow(23)), 2)), h)>>
      all  == fmin = Minus1 /\ fmax = Minus1
      lo   == IF fmin = Minus1 THEN f[1] ELSE fmin
      hi   == IF fmax = Minus1 THEN fr[n] ELSE fmax
      beyond == hi = PInf \/ (FIs(hi) /\ FLt(fr[n], hi))
      \* integral of S(f_n) (f / f_n)^-5 f^m from f_n to hi
      p    == m - 4
      up   == IF hi = PInf THEN BZero ELSE FPow(hi, p)
      tail == FDiv(FMul(FMul(sp[n], FPow(fr[n], 5)), BSub(up, FPow(fr[n], p))), FInt(p))
  IN IF n = 0 \/ ~FIs(lo) \/ (~FIs(hi) /\ hi # PInf) THEN {}
     ELSE IF all THEN {Part(1, n)}
     ELSE IF beyond
          THEN IF p = 0 \/ (p > 0 /\ hi = PInf) \/ fr[n][1] # 1 THEN {}
               ELSE {LET q == Part(a, n) IN <<BAdd(q[1], tail), BAdd(q[2], FAbs(tail))>> : a \in NearIdx(fr, lo)}
          ELSE {Part(c[1], c[2]) : c \in {d \in NearIdx(fr, lo) \X NearIdx(fr, hi) : d[1] <= d[2]}}
MomentKnown(f, S, m, fmin, fmax) == MomentSet(f, S, m, fmin, fmax) # {}

MTol(q) == BAdd(Rel(q[2], 9), TenPow(29))
InMoments(v, M) == \E q \in M : Near(v, q[1], MTol(q))
(* ratio a/b for some admitted a, b *)
Ratios(A, B) == IF \E d \in B : FLe(FAbs(d[1]), TenPow(24)) THEN {} ELSE {FDiv(c[1][1], c[2][1]) : c \in A \X B}
Roots2(R) == {FSqrt(r) : r \in {q \in R : q[1] >= 0}}
InSet(v, R) == \E r \in R : Agree(v, r, 8)

Hm0Set(f, S, a, b)  == {FTimes(FSqrt(r), 4) : r \in {q[1] : q \in {w \in MomentSet(f, S, 0, a, b) : w[1][1] >= 0}}}
(* v = 4 sqrt(m0), compared through m0 (the root of a tiny number has few digits in this unit) *)
Hm0Ok(v, M) == M = {} \/ (\A q \in M : q[1][1] = -1) \/ (FIs(v) /\ v[1] >= 0 /\ InMoments(FOver(FSq(v), 16), M))
Tmm10Set(f, S, a, b) == Ratios(MomentSet(f, S, -1, a, b), MomentSet(f, S, 0, a, b))
Tm01Set(f, S, a, b)  == Ratios(MomentSet(f, S, 0, a, b), MomentSet(f, S, 1, a, b))
Tm02Set(f, S, a, b)  == Roots2(Ratios(MomentSet(f, S, 0, a, b), MomentSet(f, S, 2, a, b)))
(* an observed value against a set of admitted ones; an empty set means not defined: anything *)
Among(v, R) == R = {} \/ InSet(v, R)

MomentFails(e, D(_)) ==
  LET M == MomentSet(V(D, e.a.f), V(D, e.a.S), e.a.m, e.a.fmin, e.a.fmax)
  IN IF M = {} THEN {}
     ELSE IF ~e.ok THEN Rejected("C11:")
     ELSE Fail(InMoments(e.r.v, M), "C11:moment")

(* --------------------------- peak periods: C12 -------------------------- *)
PeakWindow(f, lo, hi) ==                                    \* bins with lo <= f <= hi
  <<IF lo = NInf THEN 1 ELSE IF ~FIs(lo) THEN Len(f) + 1 ELSE FirstFrom(f, lo),
    IF hi = PInf THEN Len(f) ELSE IF ~FIs(hi) THEN 0 ELSE LastUpTo(f, hi)>>
Limit(x, default) == IF x = Minus1 THEN default ELSE x
PeakBins(f, fmin, fmax) == PeakWindow(f, Limit(fmin, f[1]), Limit(fmax, f[Len(f)]))
PeriodOf(f) == IF f[1] = 0 THEN PInf ELSE FDiv(One, f)
SamePeriod(T, f, tolF) ==                                   \* T is 1/g with g within tolF of f
  IF f[1] = 0 /\ ~FIs(T) THEN T = PInf
  ELSE IF ~FIs(T) \/ T[1] = 0 THEN FLe(FAbs(f), tolF)
  ELSE Near(FMul(T, f), One, BAdd(TenPow(11), FMul(FAbs(T), tolF)))

(* densities that all lie below the recorded resolution cannot be told apart *)
TpOk(T, f, S, w) ==
  LET m == LastMax(S, w[1], w[2])
  IN IF S[m][1] # 0 /\ FLt(S[m], TenPow(18)) THEN \E i \in w[1]..w[2] : FLe(BSub(S[m], TenPow(31)), S[i]) /\ SamePeriod(T, f[i], BZero)
     ELSE SamePeriod(T, f[m], BZero)

(* smoothed peak period of the bins w[1]..w[2] *)
TpsOk(T, f, S, w) ==
  LET n  == w[2] - w[1] + 1
      mx == S[LastMax(S, w[1], w[2])]
      pk == SelectSeq(Idx(w[1], w[2]), LAMBDA i : S[i] = mx)
      np == Len(pk)
      h  == IF Len(f) = 1 THEN Rel(f[1], 2) ELSE MeanStep(f)
      Mid(i) == FOver(BAdd(f[i], f[i + 1]), 2)
      c  == Min2(w[2] - 1, Max2(w[1] + 1, pk[1]))           \* middle of the three points of the parabola
      d2 == BAdd(BSub(S[c - 1], FTimes(S[c], 2)), S[c + 1])
      sl == BSub(S[c + 1], S[c - 1])
      Tol(d) == BAdd(Rel(h, 8), IF d[1] = 0 THEN h ELSE
                FMul(FMul(FMul(TenPow(12), FMax(FAbs(f[c]), h)), FSq(FDiv(FMax(FAbs(f[c]), h), h))), FDiv(mx, FAbs(d))))
      vert == BSub(f[c], FOver(FDiv(FMul(h, sl), d2), 2))
      inside == FLe(f[c - 1], vert) /\ FLe(vert, f[c + 1])
      flat == FLe(FAbs(d2), Rel(mx, 12))
      loose == flat \/ FLt(FOver(h, 4), Tol(d2))
  IN IF FLt(mx, TenPow(10)) THEN T = FInt(-999)
     ELSE IF n = 1 THEN SamePeriod(T, f[w[1]], Rel(h, 10))
     ELSE IF n = 2 THEN SamePeriod(T, IF np = 1 THEN f[pk[1]] ELSE Mid(w[1]), Rel(h, 10))
     ELSE IF np = 2 /\ pk[2] = pk[1] + 1
          THEN SamePeriod(T, Mid(pk[1]), Tol(d2)) \/ (loose /\ SamePeriod(T, f[c], h))
     ELSE IF np > 1 THEN \E i \in 1..np : SamePeriod(T, f[pk[i]], Rel(h, 10))
     ELSE IF loose THEN SamePeriod(T, f[c], FTimes(h, 2))
     ELSE IF d2[1] = -1 /\ inside THEN SamePeriod(T, vert, Tol(d2))
     ELSE IF d2[1] = -1 /\ FLe(BSub(f[c - 1], Tol(d2)), vert) /\ FLe(vert, BAdd(f[c + 1], Tol(d2)))
          THEN SamePeriod(T, vert, Tol(d2)) \/ SamePeriod(T, f[pk[1]], Rel(h, 10))
     ELSE SamePeriod(T, f[pk[1]], Rel(h, 10))

TpsFails(e, D(_)) ==
  LET f == V(D, e.a.f)
      S == V(D, e.a.S)
  IN IF ~e.ok THEN Rejected("C12:") ELSE Fail(TpsOk(e.r.v, f, S, <<1, Len(f)>>), "C12:smoothed-peak-period")

(* TpD: m0/m1 over the range of the bins with a density of at least 0.64 times the maximum *)
TpdFails(e, D(_)) ==
  LET f == V(D, e.a.f)
      S == V(D, e.a.S)
      n == Len(f)
      mx == VMax(S)
      lim == FMul(FRat(64, 100), mx)
      eps == Rel(mx, 13)
      sure == SelectSeq(Idx(1, n), LAMBDA i : FLe(BAdd(lim, eps), S[i]))
      loose == SelectSeq(Idx(1, n), LAMBDA i : FLe(BSub(lim, eps), S[i]))
      los == {i \in ToSet(loose) : i <= sure[1]}
      his == {i \in ToSet(loose) : i >= sure[Len(sure)]}
      R == UNION {Ratios(MomentSet(f, S, 0, f[c[1]], f[c[2]]), MomentSet(f, S, 1, f[c[1]], f[c[2]])) : c \in los \X his}
      single == \E c \in los \X his : c[1] = c[2]
  IN IF mx[1] # 1 THEN {}
     ELSE IF ~e.ok THEN Rejected("C12:")
     ELSE Fail(InSet(e.r.v, R) \/ single \/ (R = {} /\ los # {}), "C12:TpD")

(* ---------------------- all parameters at once: C11, C12 ---------------- *)
ParamsFails(e, D(_)) ==
  LET f == V(D, e.a.f)
      S == V(D, e.a.S)
      a == Limit(e.a.fmin, f[1])
      b == Limit(e.a.fmax, f[Len(f)])
      M0 == MomentSet(f, S, 0, a, b)
      H == Hm0Set(f, S, a, b)
      w == PeakBins(f, e.a.fmin, e.a.fmax)
      r == e.r
      none == r.Hm0 = NaN /\ r.Tp = NaN /\ r.Tps = NaN /\ r.Tmm10 = NaN /\ r.Tm01 = NaN /\ r.Tm02 = NaN
      low == FRat(1, 1000000)
  IN IF M0 = {} \/ H = {} \/ w[1] > w[2] THEN {}
     ELSE IF ~e.ok THEN Rejected("C11:")
     ELSE IF \A v \in H : FLt(v, BSub(low, TenPow(12))) THEN Fail(none, "C11:no-energy-gives-NaN")
     ELSE IF \E v \in H : FLt(v, BAdd(low, TenPow(12))) THEN {}
     ELSE Fail(Hm0Ok(r.Hm0, M0), "C11:Hm0")
          \cup Fail(Among(r.Tmm10, Tmm10Set(f, S, a, b)), "C11:Tmm10")
          \cup Fail(Among(r.Tm01, Tm01Set(f, S, a, b)), "C11:Tm01")
          \cup Fail(Among(r.Tm02, Tm02Set(f, S, a, b)), "C11:Tm02")
          \cup Fail(TpOk(r.Tp, f, S, w), "C12:peak-period")
          \cup Fail(TpsOk(r.Tps, f, S, w), "C12:smoothed-peak-period")

(* ------------------------ the Spectrum object: C13 ---------------------- *)
Steep(H, T, g) == FDiv(FMul(TwoPi, H), FMul(g, FSq(T)))
CutOff(T) == FDiv(FRat(45, 100), T)
Usable(x) == FIs(x) /\ FLt(TenPow(20), FAbs(x))

(* admitted value of parameter q determined from scratch with limits a, b; the predicate, as some *)
(* parameters are only known up to a tolerance                                                    *)
DirectOk(q, v, f, S, a, b) ==
  CASE q \in {"Hm0", "Hm0_HF", "Hm0_LF"}       -> Hm0Ok(v, MomentSet(f, S, 0, a, b))
    [] q \in {"Tmm10", "Tmm10_HF", "Tmm10_LF"} -> Among(v, Tmm10Set(f, S, a, b))
    [] q = "Tm01" -> Among(v, Tm01Set(f, S, a, b))
    [] q = "Tm02" -> Among(v, Tm02Set(f, S, a, b))
    [] q = "Tp"   -> LET w == PeakBins(f, a, b) IN w[1] > w[2] \/ TpOk(v, f, S, w)
    [] q = "Tps"  -> LET w == PeakBins(f, a, b) IN w[1] > w[2] \/ TpsOk(v, f, S, w)
(* moments of the object are taken from f[1] to f[last] by default *)
DirectDefined(q, f, S, a, b) ==
  IF q \in {"Tp", "Tps"} THEN LET w == PeakBins(f, a, b) IN w[1] <= w[2]
  ELSE MomentKnown(f, S, 0, a, b)

HighLow == {"Hm0_HF", "Hm0_LF", "Tmm10_HF", "Tmm10_LF"}
SteepOf == [s0p |-> <<"Hm0", "Tps">>, smm10 |-> <<"Hm0", "Tmm10">>, smm10_HF |-> <<"Hm0_HF", "Tmm10_HF">>]

(* default limits of the high- and low-frequency parameters, from Tm-1,0 *)
PartLimits(q, a, b, T) ==
  <<IF q \in {"Hm0_HF", "Tmm10_HF"} /\ a = Minus1 THEN CutOff(T) ELSE a,
    IF q \in {"Hm0_LF", "Tmm10_LF"} /\ b = Minus1 THEN CutOff(T) ELSE b>>
NeedsCut(q, a, b) == (q \in {"Hm0_HF", "Tmm10_HF"} /\ a = Minus1) \/ (q \in {"Hm0_LF", "Tmm10_LF"} /\ b = Minus1)

(* the parameters an action determines besides the one asked for *)
SideParams(q, at, a, b) ==
  LET given == a # Minus1 \/ b # Minus1
      cut(p) == IF p \in HighLow /\ NeedsCut(p, a, b) /\ at.Tmm10 = Absent THEN {"Tmm10"} ELSE {}
  IN IF q \in DOMAIN SteepOf
     THEN UNION {IF given \/ at[p] = Absent THEN {p} \cup cut(p) ELSE {} : p \in ToSet(SteepOf[q])}
     ELSE cut(q)

ParamOk(p, v, at2, side, f, S, a, b) ==                     \* p determined by this action, with value v
  IF p \in HighLow
  THEN LET l == PartLimits(p, a, b, at2.Tmm10)
       IN (NeedsCut(p, a, b) /\ ~Usable(at2.Tmm10)) \/ DirectOk(p, v, f, S, l[1], l[2])
  ELSE DirectOk(p, v, f, S, a, b)

SpecStateFails(e, ob, D(_)) ==
  Fail(V(D, e.st.f) = ob.f /\ V(D, e.st.S) = ob.S, "C13:spectrum-unchanged")
  \cup Fail(e.st.nf = Len(ob.f), "C13:nf")

SpecNewFails(e, D(_)) ==
  IF ~e.ok THEN Rejected("C13:")
  ELSE Fail(V(D, e.st.f) = V(D, e.a.f) /\ V(D, e.st.S) = V(D, e.a.S), "C13:spectrum-unchanged")
       \cup Fail(e.st.nf = Len(V(D, e.a.f)), "C13:nf")
       \cup Fail(\A p \in DOMAIN e.st.at : e.st.at[p] = Absent, "C13:nothing-determined-yet")

(* is parameter p, asked with limits a, b, defined for this spectrum? (no bins in the band: anything may happen) *)
DefinedParam(p, at, f, S, a, b) ==
  IF p \notin HighLow \/ ~NeedsCut(p, a, b) THEN DirectDefined(p, f, S, a, b)
  ELSE LET Ts == IF at.Tmm10 # Absent THEN {at.Tmm10} ELSE Tmm10Set(f, S, Minus1, Minus1)
       IN /\ Ts # {}
          /\ \A T \in Ts : /\ Usable(T) /\ T[1] = 1
                          /\ LET l == PartLimits(p, a, b, T)
                                 eps == Rel(CutOff(T), 9)
                                 lo == IF l[1] = a THEN a ELSE BSub(l[1], eps)
                                 hi == IF l[2] = b THEN b ELSE BAdd(l[2], eps)
                                 lo2 == IF l[1] = a THEN a ELSE BAdd(l[1], eps)
                                 hi2 == IF l[2] = b THEN b ELSE BSub(l[2], eps)
                             IN DirectDefined(p, f, S, lo, hi) /\ DirectDefined(p, f, S, lo2, hi2)
Defined(q, at, f, S, a, b) ==
  IF q \in DOMAIN SteepOf THEN \A p \in ToSet(SteepOf[q]) : DefinedParam(p, at, f, S, a, b) /\ DefinedParam(p, at, f, S, Minus1, Minus1)
  ELSE DefinedParam(q, at, f, S, a, b)

SpecGetFails(e, ob, D(_)) ==
  LET q  == e.a.q
      a  == e.a.fmin
      b  == e.a.fmax
      at == ob.at
      at2 == e.st.at
      side == SideParams(q, at, a, b) \ {q}
      aux(p) == IF p = "Tmm10" /\ q \notin {"smm10"} THEN <<Minus1, Minus1>> ELSE <<a, b>>
      steep == q \in DOMAIN SteepOf
      energy == VMax(ob.S)[1] = 1
      always == SpecStateFails(e, ob, D)
                \cup Fail(\A p \in DOMAIN at : p = q \/ p \in side \/ at2[p] = at[p], "C13:other-parameters-unchanged")
  IN IF "at" \notin DOMAIN e.st THEN {"C13:no-state"}
     ELSE IF ~energy \/ ~Defined(q, at, ob.f, ob.S, a, b) THEN always
     ELSE IF ~e.ok THEN always \cup Rejected("C13:")
     ELSE always
          \cup Fail(at2[q] = e.r.v, "C13:object-shows-the-result")
          \cup UNION {Fail(ParamOk(p, at2[p], at2, side, ob.f, ob.S, aux(p)[1], aux(p)[2]), "C13:" \o p) : p \in side}
          \cup (IF steep
                THEN LET H == at2[SteepOf[q][1]]
                         T == at2[SteepOf[q][2]]
                     IN IF Usable(H) /\ Usable(T) THEN Fail(Agree(e.r.v, Steep(H, T, e.a.g), 11), "C13:steepness") ELSE {}
                ELSE Fail(ParamOk(q, e.r.v, at2, side, ob.f, ob.S, a, b), "C13:" \o q))

SpecObj(e, D(_)) == [kind |-> "spec", dir |-> V(D, e.a.D), f |-> V(D, e.st.f), S |-> V(D, e.st.S), at |-> e.st.at, via |-> FALSE]

(* ------------------ JONSWAP and Pierson-Moskowitz: C14 ------------------ *)
Jonswap(f, fp, gam) ==                                      \* unscaled shape
  TLCEval([i \in 1..Len(f) |->
    IF FLe(f[i], Ulp) THEN BZero
    ELSE LET nu == FDiv(f[i], fp)
             sg == IF FLt(f[i], fp) THEN FRat(7, 100) ELSE FRat(9, 100)
             r  == FDiv(One, FSq(FSq(nu)))
             A  == FExp(BNeg(FDiv(FSq(BSub(nu, One)), FTimes(FSq(sg), 2))))
             pk == IF gam = One THEN One ELSE FPowR(gam, BSub(A, One))
             sh == FExp(FMul(FRat(125, 100), BSub(One, r)))
         IN IF sh[1] = 0 THEN BZero ELSE FMul(FMul(FDiv(r, nu), sh), pk)])
JonswapFails(e, D(_)) ==
  LET f == V(D, e.a.f)
      n == Len(f)
      gam == e.a.gamma
      E == Jonswap(f, e.a.fp, gam)
      last == IF e.a.lfmax = 1 THEN PInf ELSE f[n]
      M == MomentSet(f, E, 0, f[1], last)
      S == V(D, e.r.S)
      q == CHOOSE x \in M : TRUE
      c == FDiv(FOver(FSq(e.a.hm0), 16), q[1])
      M2 == MomentSet(f, S, 0, f[1], last)
      mx == VMax(E)
  IN IF e.a.lfmax \notin {0, 1} THEN Fail(~e.ok, "C14:invalid-range-rejected")
     ELSE IF M = {} \/ (\A x \in M : FLe(x[1], TenPow(16))) THEN {}
     ELSE IF ~e.ok THEN Rejected("C14:")
     ELSE IF ~Fin(D, e.r.S) THEN {"C14:finite"}
     ELSE IF Len(S) # n \/ V(D, e.r.f) # f THEN {"C14:axis"}
     ELSE Fail(\A i \in 1..n : Near(S[i], FMul(c, E[i]), BAdd(Rel(FMul(c, E[i]), 9), BAdd(FMul(c, TenPow(24)), TenPow(29)))), "C14:shape")
          \cup Fail(\A i \in 1..n : S[i][1] >= 0, "C14:non-negative")
          \cup Fail(\E x \in M2 : Near(x[1], FOver(FSq(e.a.hm0), 16), BAdd(Rel(FOver(FSq(e.a.hm0), 16), 9), TenPow(28))), "C14:wave-height")

(* ----------------------- Battjes-Groenendijk: C21 ----------------------- *)
A2 == FDiv(FInt(28), FInt(18))                              \* 2 / 3.6 + 1
GammaA2 == <<1, 1491, 9591, 9784, 3870, 2129, 2452, 8673, 8892>>
RECURSIVE GammaSeries(_, _, _)                              \* sum of x^n / (a (a+1) ... (a+n))
GammaSeries(x, term, a) ==
  IF term[1] = 0 THEN BZero ELSE BAdd(term, GammaSeries(x, FDiv(FMul(term, x), BAdd(a, One)), BAdd(a, One)))
LowerGamma(a, x) ==                                         \* lower incomplete gamma function
  IF x[1] = 0 THEN BZero ELSE FMul(FMul(FPowR(x, a), FExp(BNeg(x))), GammaSeries(x, FDiv(One, a), a))
BGRms(hm0, d) ==
  LET s == FOver(hm0, 4) IN FMul(s, BAdd(FRat(269, 100), FDiv(FMul(FRat(324, 100), s), d)))
BGFails(e, D(_)) ==
  LET h == V(D, e.r.h)
      P == V(D, e.r.P)
      gtr == BAdd(FRat(35, 100), FDiv(FRat(58, 10), e.a.cota))
      Htr == FMul(gtr, e.a.d)
      hr == BGRms(e.a.hm0, e.a.d)
      t == FDiv(Htr, hr)
      lim == FRat(275, 100)
      n == e.a.n
      lnN == FLn(FInt(n))
      X == BNeg(FLn(P[2]))                                  \* (Htr / H1)^2
      u == FSqrt(X)
      H1 == FDiv(t, u)                                      \* normalised scales of the two parts
      H2 == FDiv(t, FPowR(u, FDiv(FInt(20), FInt(36))))
      low == BSub(One, FMul(BAdd(One, X), FExp(BNeg(X))))   \* lower incomplete gamma (2, X)
      Est == BAdd(FMul(FSq(H1), low), FMul(FSq(H2), BSub(GammaA2, LowerGamma(A2, X))))
      x1 == FMul(H1, FSqrt(lnN))
      x2 == FMul(H2, FPowR(lnN, FDiv(FInt(10), FInt(36))))
      cap == FMul(e.a.hm0, FSqrt(FOver(lnN, 2)))
      Xs == IF Near(x1, t, Rel(t, 4)) THEN {x1, x2} ELSE IF FLt(x1, t) THEN {x1} ELSE {x2}
  IN IF ~e.ok THEN Rejected("C21:")
     ELSE IF ~(Fin(D, e.r.h) /\ Fin(D, e.r.P)) THEN {"C21:finite"}
     ELSE IF Near(t, lim, TenPow(9)) THEN {}
     ELSE IF FLt(lim, t) THEN Fail(Len(h) = 0 /\ Len(P) = 0, "C21:rayleigh-regime-gives-no-distribution")
     ELSE IF Len(h) # 3 \/ Len(P) # 3 THEN {"C21:three-points"}
     ELSE Fail(h[1] = BZero /\ P[1] = One, "C21:starts-at-zero-height")
          \cup Fail(Agree(h[2], Htr, 11), "C21:transition-height")
          \cup Fail(Agree(P[3], FRat(1, n), 11), "C21:last-probability")
          \cup (IF P[2][1] # 1 \/ ~FLt(P[2], One) THEN {"C21:transition-probability"}
                ELSE Fail(Near(Est, One, BAdd(e.a.tol, BAdd(TenPow(8), FDiv(TenPow(14), FMul(P[2], X))))), "C21:root-mean-square-height")
                     \cup Fail(\E x \in Xs : Agree(h[3], FMin(FMul(x, hr), cap), 6), "C21:highest-wave"))
=============================================================================
