------------------------------- MODULE PlotOps -------------------------------
(***************************************************************************)
(* Figures (C23): the lines of a figure show the data of the object, under    *)
(* the label that names them.                                                 *)
(***************************************************************************)
EXTENDS HelpOps, SequencesExt

LineIs(D(_), ln, x, y, k) == /\ VNear(V(D, ln[1]), x, BAdd(TenPow(29), Rel(VMaxAbs(x), k)))
                             /\ VNear(V(D, ln[2]), y, BAdd(TenPow(29), Rel(VMaxAbs(y), k)))
Finite2(D(_), ln) == Fin(D, ln[1]) /\ Fin(D, ln[2])

(* the line with a label, else the line at its usual place; a figure that was asked for as a file is there, also when the file existed *)
LineOf(e, lab, at) == LET k == SelectInSeq(e.r.labels, LAMBDA q : q = lab) IN e.r.lines[IF k = 0 THEN at ELSE k]
Saved(e) == Fail(e.a.save => e.r.saved, "C23:figure-saved") \cup Fail(e.r.own, "C23:a-figure-of-its-own")

(* the frequency or time axis shows what was asked for, or everything *)
ViewIs(e, D(_), a, b) == LET v == V(D, e.r.view) IN v[1] = a /\ v[2] = b
ViewHas(e, D(_), x) == LET v == V(D, e.r.view) IN FLe(v[1], VMin(x)) /\ FLe(VMax(x), v[2])

SeriesPlotFails(e, ob, D(_)) ==
  IF ~e.ok THEN Rejected("C23:")
  ELSE IF Len(e.r.lines) # (IF e.a.crossing THEN 2 ELSE 1) THEN {"C23:lines"}
  ELSE Fail(LineIs(D, e.r.lines[1], ob.t, ob.x, 14), "C23:signal-shown") \cup Saved(e)
       \cup Fail(ViewHas(e, D, ob.t), "C23:all-of-it-in-view")
       \cup (IF e.a.crossing THEN Fail(LineIs(D, e.r.lines[2], ob.tc, [i \in 1..Len(ob.tc) |-> BZero], 14), "C23:crossings-shown") ELSE {})

SpecPlotFails(e, ob, D(_)) ==
  LET have == IF e.a.periods THEN SelectSeq(<<"Tps", "Tmm10", "Tm02">>, LAMBDA p : ob.at[p] # Absent) ELSE <<>>
      top == VMax(ob.S)
      Vert(T) == LET x == FDiv(One, T) IN <<x, x>>
  IN IF \E i \in 1..Len(have) : ~Usable(ob.at[have[i]]) THEN {}
     ELSE IF ~e.ok THEN Rejected("C23:")
     ELSE IF Len(e.r.lines) # 1 + Len(have) THEN {"C23:lines"}
     ELSE Fail(LineIs(D, LineOf(e, "Spectrum", 1), ob.f, ob.S, 14), "C23:spectrum-shown") \cup Saved(e)
          \cup Fail(\A i \in 1..Len(have) : LineIs(D, LineOf(e, have[i], i + 1), Vert(ob.at[have[i]]), <<BZero, top>>, 12), "C23:periods-shown")
          \cup (IF e.a.limited THEN LET v == V(D, e.a.view) IN Fail(ViewIs(e, D, v[1], v[2]), "C23:extent-asked-for")
                ELSE Fail(ViewHas(e, D, ob.f), "C23:all-of-it-in-view"))
          \cup Fail(e.a.named => e.r.texts = e.a.texts, "C23:texts-asked-for")
          \cup Fail(e.st.at = ob.at /\ V(D, e.st.f) = ob.f /\ V(D, e.st.S) = ob.S, "C23:object-unchanged")

RankedHeights(ob) == LET C == Canon(ob.h, ob.T) IN [i \in 1..Len(C) |-> C[i][1]]
ExceedPlotFails(e, ob, D(_)) ==
  LET n == Len(ob.h)
  IN IF n = 0 THEN {}
     ELSE IF ~e.ok THEN Rejected("C23:")
     ELSE IF Len(e.r.lines) # 1 THEN {"C23:lines"}
     ELSE Fail(LineIs(D, e.r.lines[1], RankedHeights(ob), [i \in 1..n |-> FRat(i, n)], 12), "C23:exceedance-shown") \cup Saved(e)
          \cup Fail(e.r.ylog, "C23:logarithmic-exceedance")

RayleighPlotFails(e, ob, D(_)) ==
  LET n == Len(ob.h)
      C == Canon(ob.h, ob.T)
      hs == Hs(C)
      norm == IF e.a.norm THEN hs ELSE One
      x == TLCEval([i \in 1..n |-> FSqrt(BNeg(FLn(FRat(i, n))))])
      th == TLCEval([i \in 1..n |-> FDiv(FMul(Rayleigh2(hs), FSqrt(FDiv(FLn(FRat(i, n + 1)), FLn(FRat(2, 100))))), norm)])
      hh == TLCEval([i \in 1..n |-> FDiv(C[i][1], norm)])
      m == Len(e.r.lines)
  IN IF n = 0 \/ FLe(norm, TenPow(16)) THEN {}
     ELSE IF ~e.ok THEN Rejected("C23:")
     ELSE IF m # (IF e.a.bg THEN 3 ELSE 2) THEN {"C23:lines"}
     ELSE Fail(LineIs(D, LineOf(e, "Theoretical Rayleigh distribution", 1), x, th, 9), "C23:rayleigh-distribution-shown")
          \cup Fail(LineIs(D, LineOf(e, "Wave height distribution", m), x, hh, 9), "C23:wave-heights-shown") \cup Saved(e)
          \cup LET at == V(D, e.r.ticks)
                   pc == V(D, e.r.perc)
               IN Fail(\A i \in 1..Len(pc) : LET p == FOver(pc[i], 100) IN Near(at[i], IF p = One THEN BZero ELSE FSqrt(BNeg(FLn(p))), TenPow(9)),
                       "C23:percentages-along-the-axis")
          \cup (IF ~e.a.bg THEN {}
                ELSE LET hb == V(D, e.r.bgh)
                         P == V(D, e.r.bgP)
                     IN Fail(LineIs(D, LineOf(e, "Battjes & Groenendijk (2000) distribution", 2), [i \in 1..Len(P) |-> IF P[i] = One THEN BZero ELSE FSqrt(BNeg(FLn(P[i])))],
                                    [i \in 1..Len(hb) |-> FDiv(hb[i], norm)], 9), "C23:battjes-groenendijk-shown"))

HistPlotFails(e, ob, D(_)) ==
  LET n == Len(ob.h)
      lo == VMin(ob.h)
      hi == VMax(ob.h)
      E == V(D, e.r.edges)
      c == V(D, e.r.counts)
      b == Len(c)
      slack == Rel(hi, 9)
      Sure(i) == Cardinality({k \in 1..n : FLt(BAdd(E[i], slack), ob.h[k]) /\ FLt(ob.h[k], BSub(E[i + 1], slack))})
      May(i)  == Cardinality({k \in 1..n : FLe(BSub(E[i], slack), ob.h[k]) /\ FLe(ob.h[k], BAdd(E[i + 1], slack))})
  IN IF n = 0 THEN {}
     ELSE IF lo = hi \/ (~e.ok /\ FLe(BSub(hi, lo), Rel(hi, 13))) THEN {}   \* no room for bins
     ELSE IF ~e.ok THEN Rejected("C23:")
     ELSE IF Len(E) # b + 1 \/ b = 0 THEN {"C23:histogram"}
     ELSE Fail(Near(E[1], lo, slack) /\ Near(E[b + 1], hi, slack), "C23:histogram-range") \cup Saved(e)
          \cup Fail(BSum(c) = FInt(n), "C23:histogram-counts-every-wave")
          \cup Fail(\A i \in 1..b : FLe(FInt(Sure(i)), c[i]) /\ FLe(c[i], FInt(May(i))), "C23:histogram")
=============================================================================
