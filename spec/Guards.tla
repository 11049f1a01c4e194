------------------------------- MODULE Guards -------------------------------
(***************************************************************************)
(* Which requests the toolbox accepts (C18).  An input array is described by  *)
(* the data table: shape sh, values v.  Verdict(g, D) is "yes" (must be        *)
(* accepted), "no" (must be rejected with an error) or "either".              *)
(***************************************************************************)
EXTENDS WaveOps

VecShape(d) ==                                              \* 1-D input: n values, as a row, a list or a column
  IF Len(d.sh) = 1 THEN (IF d.sh[1] > 0 THEN "yes" ELSE "empty")
  ELSE IF Len(d.sh) = 2 THEN (IF d.sh[1] > 0 /\ d.sh[2] = 1 THEN "yes" ELSE IF d.sh[1] > 0 /\ d.sh[2] > 1 THEN "no" ELSE "empty")
  ELSE "odd"
StrictShape(d) ==                                           \* exactly one dimension
  IF Len(d.sh) = 1 THEN (IF d.sh[1] > 0 THEN "yes" ELSE "empty")
  ELSE IF Len(d.sh) = 2 THEN (IF d.sh[1] > 0 /\ d.sh[2] > 0 THEN "no" ELSE "empty")
  ELSE "odd"
Size(d) == IF d.c THEN Len(d.re) ELSE Len(d.v)

All(vs) == IF "no" \in vs THEN "no" ELSE IF vs \subseteq {"yes"} THEN "yes" ELSE "either"
YesNo(b) == IF b THEN "yes" ELSE "no"
UniformAxis(d) == IF ~d.fin THEN "either" ELSE LET u == Uniformity(d.v) IN IF u = "edge" THEN "either" ELSE u

(* functions of (axis, values): vectors, uniform axis, equal lengths *)
AxisValues(x, y) ==
  LET sx == VecShape(x) IN LET sy == VecShape(y) IN
  IF {sx, sy} # {"yes"} THEN (IF "no" \in {sx, sy} THEN "no" ELSE "either")
  ELSE All({UniformAxis(x), YesNo(Size(x) = Size(y))})
(* the same without the requirement on the axis *)
SameLength(x, y) ==
  LET sx == VecShape(x) IN LET sy == VecShape(y) IN
  IF {sx, sy} # {"yes"} THEN (IF "no" \in {sx, sy} THEN "no" ELSE "either") ELSE YesNo(Size(x) = Size(y))
(* vectors, lengths unchecked *)
Vectors(x, y) ==
  LET sx == VecShape(x) IN LET sy == VecShape(y) IN
  IF "no" \in {sx, sy} THEN "no" ELSE IF {sx, sy} = {"yes"} /\ Size(x) = Size(y) /\ Size(x) >= 2 THEN "yes" ELSE "either"
(* strictly one-dimensional arrays of equal length *)
StrictPair(x, y) ==
  LET sx == StrictShape(x) IN LET sy == StrictShape(y) IN
  IF sx = "empty" /\ sy = "empty" THEN "yes"
  ELSE IF {sx, sy} # {"yes"} THEN (IF "no" \in {sx, sy} THEN "no" ELSE "either")
  ELSE YesNo(Size(x) = Size(y))
Jitter(d) ==                                                \* Series: equal steps up to var(step) < mean(step) / 100
  IF Size(d) < 2 THEN "either"
  ELSE IF ~Increasing(d.v) THEN "no"
  ELSE IF Uniformity(d.v) = "yes" THEN "yes"
  ELSE LET n == Len(d.v)
           s == TLCEval([i \in 1..(n - 1) |-> StepAt(d.v, i)])
           q == Var(s)
           m == FOver(VMean(s), 100)
       IN IF FLt(FTimes(m, 2), q) THEN "no" ELSE "either"

Verdict(a, D(_)) ==
  LET A == IF a.x = 0 THEN D(1) ELSE D(a.x)
      B == IF a.y = 0 THEN D(1) ELSE D(a.y)
  IN CASE a.fn \in {"time2freq", "time2freq_nyquist", "compute_spectrum_time_series", "bandpassfilter",
                    "compute_spectrum_freq_series", "compute_moment", "compute_spectrum_params"} -> AxisValues(A, B)
       [] a.fn = "Spectrum" -> IF "no" \in {VecShape(A), VecShape(B)} THEN "either" ELSE AxisValues(A, B)
       [] a.fn = "Series" -> IF "no" \in {VecShape(A), VecShape(B)} THEN "no"
                             ELSE IF {VecShape(A), VecShape(B)} # {"yes"} THEN "either"
                             ELSE IF Size(A) # Size(B) THEN "no"
                             ELSE Jitter(A)
       [] a.fn = "spectrum2timeseries" -> SameLength(A, B)
       [] a.fn = "compute_tps" -> IF SameLength(A, B) # "yes" THEN SameLength(A, B) ELSE IF UniformAxis(A) = "yes" THEN "yes" ELSE "either"
       [] a.fn \in {"frequency_averaging", "unfold_spectrum"} -> Vectors(A, B)
       [] a.fn = "freq2time" -> LET s == VecShape(A) IN IF s \in {"yes", "no"} THEN s ELSE "either"
       [] a.fn = "sort_wave_params" -> StrictPair(A, B)
       [] a.fn = "determine_zero_crossing" ->
            LET s == {StrictShape(A), StrictShape(B)} IN
            IF "no" \in s THEN "no" ELSE IF s # {"yes"} THEN "either"
            ELSE IF Size(A) # Size(B) THEN "no" ELSE IF Size(A) < 2 THEN "either" ELSE YesNo(a.word \in {"up", "down", "UP", "Down"})
       [] a.fn = "highest_waves_params" ->
            LET s == {StrictShape(A), StrictShape(B)} IN
            IF s = {"empty"} THEN "yes" ELSE IF "no" \in s THEN "no" ELSE IF s # {"yes"} THEN "either"
            ELSE YesNo(Size(A) = Size(B) /\ a.num[1] >= 0 /\ FLe(a.num, One) /\ Ranked(A.v))
       [] a.fn = "exceedance_wave_height" ->
            LET s == StrictShape(A) IN
            IF s = "empty" THEN "yes" ELSE IF s = "no" THEN "no" ELSE IF s # "yes" THEN "either"
            ELSE YesNo(a.num[1] >= 0 /\ FLe(a.num, FInt(100)) /\ Ranked(A.v))
       [] a.fn = "create_spectrum_jonswap" ->
            LET s == VecShape(A) IN
            IF s = "no" THEN "no" ELSE IF s # "yes" THEN "either"
            ELSE IF a.num \notin {BZero, One} THEN "no" ELSE UniformAxis(A)
       [] OTHER -> "either"

(* decomposition: t, the matrix of signals (given by its shape), positions, weights *)
DecompVerdict(a, D(_)) ==
  LET T == D(a.t)
      X == D(a.x)
      P == D(a.pos)
      W == D(a.wt)
      G == Size(P)
  IN IF Len(X.sh) # 2 THEN "no"
     ELSE IF X.sh[2] # G \/ Size(W) # G \/ G < 2 \/ X.sh[1] # Size(T) THEN "no"
     ELSE IF \E g \in 1..G : W.v[g][1] = -1 \/ FLt(One, W.v[g]) THEN "no"
     ELSE IF ~Increasing(P.v) THEN "no"
     ELSE LET s == SumW(W.v) IN
          IF FLe(s, One) THEN (IF FLe(s, BSub(One, TenPow(12))) THEN "no" ELSE "either")
          ELSE IF FLt(s, Two) THEN "either" ELSE UniformAxis(T)

GuardFails(e, D(_)) ==
  LET v == IF e.op = "guard.zs" THEN DecompVerdict(e.a, D) ELSE Verdict(e.a, D)
  IN IF v = "yes" THEN Fail(e.ok, "C18:valid-input-accepted:" \o e.a.fn)
     ELSE IF v = "no" THEN Fail(~e.ok, "C18:invalid-input-rejected:" \o e.a.fn)
     ELSE {}

(* the same numbers given as list, integer array or column vector give the same result *)
SameArrays(p, A, B, tolk) ==
  IF A.c # B.c /\ Size(A) > 0 THEN FALSE
  ELSE IF A.c THEN LET tol == TLCEval(Rel(BAdd(VMaxAbs(B.re), VMaxAbs(B.im)), tolk)) IN
                   /\ Len(A.re) = Len(B.re)
                   /\ \A i \in 1..Len(A.re) : Agree(A.re[i], B.re[i], tolk) \/ Near(A.re[i], B.re[i], tol)
                   /\ \A i \in 1..Len(A.im) : Near(A.im[i], B.im[i], BAdd(TenPow(29), tol))
  ELSE LET tol == TLCEval(BAdd(TenPow(29), IF B.fin THEN Rel(VMaxAbs(B.v), tolk) ELSE BZero)) IN
       /\ Len(A.v) = Len(B.v)
       /\ \A i \in 1..Len(A.v) : A.v[i] = B.v[i] \/ Near(A.v[i], B.v[i], tol)
FormsFails(e, D(_)) ==                                      \* r.a, r.b: results of the two forms, lists of arrays
  IF ~e.r.okb THEN {}
  ELSE IF ~e.r.oka THEN {"C18:equivalent-form-accepted:" \o e.a.fn}
  ELSE Fail(Len(e.r.a) = Len(e.r.b) /\ \A i \in 1..Len(e.r.a) : SameArrays("", D(e.r.a[i]), D(e.r.b[i]), 11),
            "C18:equivalent-forms-agree:" \o e.a.fn)

(* --------------------- purity and determinism: C19 ---------------------- *)
PureFails(e) ==
  Fail(e.mut = <<>>, "C19:arguments-unchanged:" \o e.op)
  \cup Fail(e.env = <<>>, "C19:settings-of-the-process-untouched:" \o e.op)
  \cup Fail(~e.rng \/ e.op \in {"synth", "synth.obj", "series.synth"}, "C19:random-state-untouched:" \o e.op)
RepeatFails(e, D(_)) ==
  Fail(e.r.both /\ Len(e.r.a) = Len(e.r.b) /\ \A i \in 1..Len(e.r.a) : D(e.r.a[i]).sh = D(e.r.b[i]).sh /\ SameArrays("", D(e.r.a[i]), D(e.r.b[i]), 11),
       "C19:same-request-same-result:" \o e.a.fn)
  \cup Fail(e.r.kept, "C19:arguments-unchanged:" \o e.a.fn)
=============================================================================
