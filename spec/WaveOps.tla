------------------------------- MODULE WaveOps -------------------------------
(***************************************************************************)
(* Linear wave theory: the dispersion relation (C15) and the separation of    *)
(* incident and reflected waves (C16).                                       *)
(***************************************************************************)
EXTENDS ParamOps

(* -------------------------- dispersion: C15 ----------------------------- *)
(* k solves w^2 = g k tanh(k h); the sign of k is the sign of w *)
DispOk(k, w, h, g) ==
  IF w[1] = 0 THEN FIs(k) /\ FLe(FAbs(k), TenPow(28))
  ELSE IF ~FIs(k) \/ k[1] # w[1] THEN FALSE
  ELSE IF h = PInf THEN Near(FMul(g, FAbs(k)), FSq(w), BAdd(Rel(FSq(w), 12), TenPow(28)))
  ELSE IF h[1] = -1 THEN LET c == FSqrt(FMul(g, FAbs(h))) IN Near(FMul(k, c), w, BAdd(Rel(w, 12), TenPow(28)))
  ELSE LET q == FMul(FAbs(k), h)
           c == FSqrt(FMul(g, h))
       IN IF FLt(q, TenPow(7)) THEN Near(FMul(k, c), w, BAdd(Rel(w, 11), TenPow(28)))
          ELSE Near(FMul(FMul(g, FAbs(k)), IF FLt(FInt(40), q) THEN One ELSE FTanh(q)), FSq(w), BAdd(Rel(FSq(w), 11), TenPow(28)))
DispFails(e, D(_)) ==
  LET w == V(D, e.a.w)
      k == V(D, e.r.k)
  IN IF ~e.ok THEN Rejected("C15:")
     ELSE IF Len(k) # Len(w) THEN {"C15:one-wave-number-per-frequency"}
     ELSE Fail(\A i \in 1..Len(w) : DispOk(k[i], w[i], e.a.h, e.a.g), "C15:dispersion-relation")

(* wave number for the specification itself: Newton's method on q tanh q = w^2 h / g *)
RECURSIVE DispNewton(_, _, _)
DispNewton(q, y, n) ==
  LET th == IF FLt(FInt(40), q) THEN One ELSE FTanh(q)
      dq == FDiv(BSub(FMul(q, th), y), BAdd(th, FMul(q, BSub(One, FSq(th)))))
  IN IF n = 0 \/ FLe(FAbs(dq), TenPow(26)) THEN BSub(q, dq) ELSE DispNewton(BSub(q, dq), y, n - 1)
WaveNumber(w, h) ==
  IF w[1] = 0 THEN BZero
  ELSE IF h = PInf THEN FDiv(FSq(w), Gravity)
  ELSE IF h[1] = -1 THEN FDiv(w, FSqrt(FMul(Gravity, FAbs(h))))
  ELSE LET y == FDiv(FMul(FSq(w), h), Gravity)
       IN FDiv(DispNewton(FMax(y, FSqrt(y)), y, 40), h)

(* ------------------ incident and reflected waves: C16 ------------------- *)
(* x: sequence of gauge signals; pos: positions; wt: weights.  For a frequency with wave number k    *)
(* the incident and reflected components I, R at gauge 1 minimise sum wt |I e^{-ikd} + R e^{ikd} - X|^2 *)
SumW(wt) == BSum(wt)
GaugeDist(pos, g) == BSub(pos[g], pos[1])
Expi(a) == <<FCos(a), FSin(a)>>
CScale(c, z) == <<FMul(c, z[1]), FMul(c, z[2])>>
CAdd(a, b) == <<BAdd(a[1], b[1]), BAdd(a[2], b[2])>>
CSub(a, b) == <<BSub(a[1], b[1]), BSub(a[2], b[2])>>
CSum(s) == <<BSum([i \in 1..Len(s) |-> s[i][1]]), BSum([i \in 1..Len(s) |-> s[i][2]])>>

Split(X, kw, pos, wt) ==                                    \* X: the components of the gauges
  LET G  == Len(pos)
      ph == TLCEval([g \in 1..G |-> Expi(FMul(kw, GaugeDist(pos, g)))])
      W  == SumW(wt)
      a22 == CSum([g \in 1..G |-> CScale(wt[g], CMul(ph[g], ph[g]))])
      a11 == CConj(a22)
      b1 == CSum([g \in 1..G |-> CScale(wt[g], CMul(X[g], CConj(ph[g])))])
      b2 == CSum([g \in 1..G |-> CScale(wt[g], CMul(X[g], ph[g]))])
      det == BSub(Abs2(a22), FSq(W))                        \* real, not positive
      Over(z) == <<FDiv(z[1], det), FDiv(z[2], det)>>
  IN [sdet |-> FOver(FAbs(det), 4),
      inc |-> IF det[1] = 0 THEN <<BZero, BZero>> ELSE Over(CSub(CMul(a22, b1), CScale(W, b2))),
      ref |-> IF det[1] = 0 THEN <<BZero, BZero>> ELSE Over(CSub(CMul(a11, b2), CScale(W, b1)))]

DecompFails(e, D(_)) ==
  LET t == V(D, e.a.t)
      N == Len(t)
      xs == [g \in 1..Len(e.a.x) |-> V(D, e.a.x[g])]
      pos == V(D, e.a.pos)
      wt == V(D, e.a.wt)
      G == Len(pos)
      w == Roots(N)
      df == Df(t)
      ks == IF FoldedLen(N) <= SmallN \/ (N <= 1200 /\ Smooth(N)) THEN Idx(0, FoldedLen(N) - 1) ELSE e.a.bins
      XG == TLCEval([g \in 1..G |-> Coefs(w, xs[g], ks)])
      inc == V(D, e.r.inc)
      ref == V(D, e.r.ref)
      ZI == Coefs(w, inc, ks)
      ZR == Coefs(w, ref, ks)
      P == TLCEval([i \in 1..Len(ks) |-> Split([g \in 1..G |-> XG[g][i]], WaveNumber(FMul(TwoPi, FTimes(df, ks[i])), e.a.h), pos, wt)])
      amp == FDiv(FMul(BSum([g \in 1..G |-> VSumAbs(xs[g])]), FTimes(FMax(One, SumW(wt)), 1)), FMin(One, FMax(e.a.lim, TenPow(6))))
      far == FMul(WaveNumber(FMul(TwoPi, FTimes(df, N \div 2)), e.a.h), GaugeDist(pos, G))
      low == FLt(e.a.lim, TenPow(6))                        \* nearly singular components are solved as well: these are not judged
      tol == BAdd(BAdd(FMul(amp, BAdd(TenPow(9), FMul(BAdd(One, far), FTimes(StepSlack(t), 4)))), TenPow(25)),
                  IF low THEN Rel(BAdd(VSumAbs(inc), VSumAbs(ref)), 12) ELSE BZero)
      eps == BAdd(TenPow(9), FMul(BAdd(One, far), FTimes(StepSlack(t), 16)))
      zero == <<BZero, BZero>>
      Nyq(i) == 2 * ks[i] = N
      Is(i, z, s) == IF Nyq(i) THEN Near(z[1], s[1], tol) ELSE CNear(z[1], z[2], s, tol)
      Solved(i) == Is(i, ZI[i], P[i].inc) /\ Is(i, ZR[i], P[i].ref)
      Nothing(i) == Is(i, ZI[i], zero) /\ Is(i, ZR[i], zero)
      Free(i) == low /\ FLt(P[i].sdet, TenPow(5))
      Edge(i) == Near(P[i].sdet, e.a.lim, BAdd(eps, Rel(P[i].sdet, 9)))
  IN IF ~e.ok THEN Rejected("C16:")
     ELSE IF ~(Fin(D, e.r.inc) /\ Fin(D, e.r.ref)) THEN {"C16:finite"}
     ELSE IF Len(inc) # N \/ Len(ref) # N THEN {"C16:number-of-samples"}
     ELSE Fail(\A i \in 1..Len(ks) : Free(i) \/ Edge(i) \/ FLe(P[i].sdet, e.a.lim) \/ Solved(i), "C16:separation")
          \cup Fail(\A i \in 1..Len(ks) : Free(i) \/ Edge(i) \/ FLt(e.a.lim, P[i].sdet) \/ Nothing(i), "C16:ill-conditioned-components-dropped")
          \cup Fail(\A i \in 1..Len(ks) : Free(i) \/ ~Edge(i) \/ Solved(i) \/ Nothing(i), "C16:separation")
          \cup (IF e.op = "zs.series" THEN Fail(V(D, e.r.t) = t, "C16:time-axis") ELSE {})

(* a generated incident and reflected wave is found back *)
RecoverFails(e, D(_)) ==
  IF ~e.ok THEN Rejected("C16:")
  ELSE LET tol == BAdd(Rel(BAdd(VMaxAbs(V(D, e.a.inc)), VMaxAbs(V(D, e.a.ref))), 7), TenPow(20))
       IN Fail(VNear(V(D, e.r.inc), V(D, e.a.inc), tol), "C16:incident-wave-recovered")
          \cup Fail(VNear(V(D, e.r.ref), V(D, e.a.ref), tol), "C16:reflected-wave-recovered")
=============================================================================
