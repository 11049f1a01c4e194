------------------------------- MODULE Toolbox -------------------------------
(***************************************************************************)
(* The toolbox as a state machine.  The state is a heap of user-visible       *)
(* objects (wave-height tables, Series, Spectrum) plus the history of          *)
(* syntheses; an event is one request with its observed outcome.              *)
(*   StepFails(e, hp, D)  clauses of the specification that event e violates   *)
(*                        in heap hp; the event is a legal step iff it is {}   *)
(*   StepHeap(e, hp, D)   the heap after e                                    *)
(***************************************************************************)
EXTENDS PlotOps

EmptyHeap == [obj |-> <<>>, synth |-> <<>>, ans |-> <<>>]
Has(hp, o) == o \in 1..Len(hp.obj)

OnWaves == {"q.sort", "q.Hs", "q.highest", "q.exc", "q.H2p", "q.Hrms", "q.Hmax", "plot.exceed", "plot.rayleigh", "plot.hist"}
OnSeries == {"cross.series", "series.reanalyse", "series.fft", "series.raw", "series.band", "series.welch", "series.stat", "plot.series"}
OnSpec == {"spec.get", "plot.spec", "series.synth"}
Adopts == {"series.adopt", "spec.adopt"}
Creates == {"waves.new", "series.new", "spec.new"}

WavesStep(e, ob, D(_)) ==
  CASE e.op = "q.sort" -> SortFails(e, ob, D)
    [] e.op \in {"q.Hs", "q.highest"} -> HighestFails(e, ob, D)
    [] e.op = "q.exc"  -> ExceedOpFails(e, ob, D)
    [] e.op = "q.H2p"  -> H2pFails(e, ob, D)
    [] e.op = "q.Hrms" -> HrmsFails(e, ob, D)
    [] e.op = "q.Hmax" -> HmaxFails(e, ob, D)
    [] e.op = "plot.exceed"   -> ExceedPlotFails(e, ob, D) \cup (IF e.ok THEN WaveStateFails(e, ob, FALSE, D) ELSE {})
    [] e.op = "plot.rayleigh" -> RayleighPlotFails(e, ob, D) \cup (IF e.ok THEN WaveStateFails(e, ob, FALSE, D) ELSE {})
    [] e.op = "plot.hist"     -> HistPlotFails(e, ob, D) \cup (IF e.ok THEN WaveStateFails(e, ob, FALSE, D) ELSE {})

Unchanged(e, ob, D(_)) ==                                   \* a query leaves a Series as it was
  IF ~e.ok THEN {}
  ELSE Fail(V(D, e.st.t) = ob.t /\ V(D, e.st.x) = ob.x /\ V(D, e.st.h) = ob.h /\ V(D, e.st.T) = ob.T /\ V(D, e.st.tc) = ob.tc,
            "C19:series-unchanged:" \o e.op)
SeriesStep(e, ob, D(_)) ==
  IF e.op = "series.reanalyse" THEN ReanalyseFails(e, ob, D)
  ELSE Unchanged(e, ob, D) \cup
       CASE e.op = "cross.series" -> CrossOpFails(e, ob.t, ob.x, D)
         [] e.op = "series.fft"   -> T2fnFails(e, ob.t, ob.x, D)
         [] e.op = "series.raw"   -> DensFails("C07:", e, ob.t, ob.x, D)
         [] e.op = "series.band"  -> BandOpFails(e, ob.t, ob.x, D)
         [] e.op = "series.welch" -> WelchFails(e, MeanStep(ob.t), RoundSlack(ob.t), ob.x, D)
         [] e.op = "series.stat"  -> StatFails(e, ob.x)
         [] e.op = "plot.series"  -> SeriesPlotFails(e, ob, D)

SpecStep(e, ob, hp, D(_)) ==
  CASE e.op = "spec.get"  -> SpecGetFails(e, ob, D)
    [] e.op = "plot.spec" -> SpecPlotFails(e, ob, D)
    [] e.op = "series.synth" -> SynthFails(e, D) \cup SynthSeedFails(e, hp, D)
                                \cup (IF e.ok THEN Fail(V(D, e.a.f) = ob.f /\ V(D, e.a.S) = ob.S /\ e.st.at = ob.at, "C10:spectrum-unchanged") ELSE {})

PlainStep(e, hp, D(_)) ==
  CASE e.op = "cross.core" -> CrossOpFails(e, V(D, e.a.t), V(D, e.a.x), D)
    [] e.op = "waves.core" -> IndWavesFails(e, D)
    [] e.op = "series.new" -> SeriesNewFails(e, D)
    [] e.op = "waves.new"  -> WavesNewFails(e, D)
    [] e.op = "core.sort"  -> CoreSortFails(e, D)
    [] e.op = "core.highest" -> CoreHighestFails(e, D)
    [] e.op = "core.exc"   -> CoreExceedFails(e, D)
    [] e.op = "fft.full"   -> T2fFails(e, D)
    [] e.op = "fft.half"   -> T2fnFails(e, V(D, e.a.t), V(D, e.a.x), D)
    [] e.op = "fft.unfold" -> UnfoldFails(e, D)
    [] e.op = "fft.inv"    -> F2tFails(e, D)
    [] e.op = "fft.round"  -> RoundTripFails(e, D)
    [] e.op = "dens.core"  -> DensFails("C07:", e, V(D, e.a.t), V(D, e.a.x), D)
    [] e.op = "dens.freq"  -> DensFreqFails(e, D)
    [] e.op = "avg"        -> AvgFails(e, D)
    [] e.op = "band.core"  -> BandOpFails(e, V(D, e.a.t), V(D, e.a.x), D)
    [] e.op = "band.part"  -> BandPartFails(e, D)
    [] e.op = "band.freq"  -> BandFreqFails(e, D)
    [] e.op \in {"synth", "synth.obj"} -> SynthFails(e, D) \cup SynthSeedFails(e, hp, D)
    [] e.op = "coh"        -> CohFails(e, D)
    [] e.op = "welch.core" -> WelchFails(e, e.a.dt, TenPow(12), V(D, e.a.x), D)
    [] e.op = "moment"     -> MomentFails(e, D)
    [] e.op = "params"     -> ParamsFails(e, D)
    [] e.op = "tps"        -> TpsFails(e, D)
    [] e.op = "tpd"        -> TpdFails(e, D)
    [] e.op = "spec.new"   -> SpecNewFails(e, D)
    [] e.op = "jonswap"    -> JonswapFails(e, D)
    [] e.op = "bg"         -> BGFails(e, D)
    [] e.op = "disp"       -> DispFails(e, D)
    [] e.op \in {"zs", "zs.series"} -> DecompFails(e, D)
    [] e.op = "zs.recover" -> RecoverFails(e, D)
    [] e.op \in {"guard", "guard.zs"} -> GuardFails(e, D)
    [] e.op = "forms"      -> FormsFails(e, D)
    [] e.op = "help.array"   -> ArrayFails(e, D)
    [] e.op = "help.vector"  -> VectorFails(e, D)
    [] e.op = "help.oned"    -> OneDFails(e, D)
    [] e.op = "help.uniform" -> UniformFails(e, D)
    [] e.op = "help.nearest" -> NearestFails(e, D)
    [] e.op = "repeat"     -> RepeatFails(e, D)
    [] e.op = "series.adopt" -> LET f == SeriesNewFails(e, D) IN IF f = {} THEN {} ELSE {"C24:returned-series-is-complete"}
    [] e.op = "spec.adopt" -> LET f == SpecNewFails(e, D) IN IF f = {} THEN {} ELSE {"C24:returned-spectrum-is-complete"}
    [] e.op \in {"user.seed", "user.draw"} -> {}                \* the user's own use of the random stream

(* --------------- objects that requests return: C24 ---------------------- *)
(* An object answered by a request becomes an object of the heap like one newly created from its numbers.            *)
(* A look at an object finds it as the last request on that very object left it.                                     *)
LookFails(e, ob, D(_)) ==
  LET w == CASE ob.kind = "spec" -> "spectrum" [] ob.sig -> "series" [] OTHER -> "waves"
  IN IF ~e.ok \/ e.a.what # w THEN {"C24:object-untouched-by-other-requests"}
     ELSE Fail(IF ob.kind = "spec" THEN V(D, e.st.f) = ob.f /\ V(D, e.st.S) = ob.S /\ e.st.at = ob.at
               ELSE /\ V(D, e.st.h) = ob.h /\ V(D, e.st.T) = ob.T /\ e.st.n = Len(ob.h)
                    /\ ob.sig => V(D, e.st.t) = ob.t /\ V(D, e.st.x) = ob.x /\ V(D, e.st.tc) = ob.tc,
               "C24:object-untouched-by-other-requests")
(* ------------------------------- warnings: C26 ------------------------- *)
(* The user is warned each time a result rests on a limit that was not given (the cut-off 0.45/Tm-1,0), lies outside  *)
(* the validity of the distribution or is not given by it, and not otherwise.                                       *)
Quiet == {"cross.core", "waves.core", "core.sort", "core.highest", "core.exc", "fft.full", "fft.half", "fft.unfold", "fft.inv", "dens.core", "dens.freq", "avg",
          "band.core", "band.freq", "synth", "synth.obj", "coh", "moment", "params", "tps", "tpd", "spec.new", "series.new", "waves.new", "jonswap", "disp", "zs", "zs.series",
          "q.sort", "q.Hs", "q.highest", "q.exc", "q.H2p", "q.Hrms", "q.Hmax", "cross.series", "series.reanalyse", "series.fft", "series.raw", "series.band", "series.stat",
          "series.synth", "describe", "look"}
CutParts(e, ob) ==                                          \* the parameters determined by this request with the default cut-off
  LET q == e.a.q
      P == IF q \in DOMAIN SteepOf THEN SideParams(q, ob.at, e.a.fmin, e.a.fmax) ELSE {q}
  IN {p \in P \cap HighLow : NeedsCut(p, e.a.fmin, e.a.fmax)}
WarnFails(e, hp) ==
  IF ~e.ok THEN {}
  ELSE IF e.op = "spec.get" /\ Has(hp, e.o) THEN Fail((e.warn > 0) = (CutParts(e, hp.obj[e.o]) # {}), "C26:default-cut-off")
  ELSE IF e.op = "bg"
  THEN LET outside == FLt(e.a.cota, FInt(20)) \/ FLt(FInt(250), e.a.cota)
           t == FDiv(FMul(BAdd(FRat(35, 100), FDiv(FRat(58, 10), e.a.cota)), e.a.d), BGRms(e.a.hm0, e.a.d))
       IN IF Near(t, FRat(275, 100), TenPow(9)) THEN {}
          ELSE Fail((e.warn > 0) = (outside \/ FLt(FRat(275, 100), t)), "C26:foreshore")
               \cup Fail(outside /\ FLt(FRat(275, 100), t) => e.warn > 1, "C26:foreshore-and-regime")
  ELSE Fail(e.op \in Quiet => e.warn = 0, "C26:no-other-warnings")

(* --------------------- what an object says of itself: C25 ---------------- *)
(* The counts an object shows and prints are those of the data it holds now, in any history, also after a request    *)
(* that was rejected; its texts name its class, and a spectrum's kind is that of the data it was given.                *)
DescribeFails(e, ob, D(_)) ==
  IF ~e.ok THEN Rejected("C25:")
  ELSE IF ob.kind = "spec"
  THEN LET kind == IF ob.dir = <<>> THEN "1D" ELSE "2D"
       IN Fail(e.st.nf = Len(V(D, e.st.f)) /\ Len(V(D, e.st.S)) = e.st.nf, "C25:number-of-frequencies")
          \cup Fail(e.r.sn = <<e.st.nf>>, "C25:text-counts-the-frequencies")
          \cup Fail(e.r.spec = kind /\ e.r.skind = kind /\ e.r.rkind = kind, "C25:kind-of-spectrum")
          \cup Fail(V(D, e.r.D) = ob.dir, "C25:directional-data-kept")
          \cup Fail(e.r.named, "C25:text-names-the-class")
  ELSE LET w == Len(V(D, e.st.h))
           c == IF ob.sig THEN Len(V(D, e.st.t)) ELSE w
       IN Fail(e.st.n = w /\ Len(V(D, e.st.T)) = w, "C25:number-of-waves")
          \cup (IF ob.sig THEN Fail(e.st.nt = c /\ Len(V(D, e.st.x)) = c, "C25:number-of-samples")
                              \cup Fail(Near(e.st.dt, MeanStep(V(D, e.st.t)), Rel(e.st.dt, 9)), "C25:time-step")
                ELSE {})
          \cup Fail(e.r.sn = <<c>> /\ e.r.rn = <<c>>, "C25:text-counts-the-data")
          \cup Fail(e.r.named, "C25:text-names-the-class")
Returned(hp, o) == Has(hp, o) /\ hp.obj[o].via

StepFailsOwn(e, hp, D(_)) ==
  PureFails(e) \cup
  IF e.op = "look" THEN (IF Has(hp, e.o) THEN LookFails(e, hp.obj[e.o], D) ELSE {"C00:unknown-object"}) ELSE
  IF e.op = "describe" THEN (IF Has(hp, e.o) THEN DescribeFails(e, hp.obj[e.o], D) ELSE {"C00:unknown-object"}) ELSE
  IF e.op \in OnWaves \cup OnSeries \cup OnSpec
  THEN IF ~Has(hp, e.o) THEN {"C00:unknown-object"}
       ELSE LET ob == hp.obj[e.o]
            IN IF e.op \in OnWaves THEN WavesStep(e, ob, D)
               ELSE IF e.op \in OnSeries THEN SeriesStep(e, ob, D)
               ELSE SpecStep(e, ob, hp, D)
  ELSE PlainStep(e, hp, D)

(* Answers about a table of waves are a function of the waves and the question: whatever was asked before, of   *)
(* whichever object that got the same waves, ranked or not.                                                      *)
Asks == {"q.Hs", "q.highest", "q.exc", "q.H2p", "q.Hrms", "q.Hmax"}
Question(e) == <<e.op, IF e.op = "q.highest" THEN e.a.frac ELSE IF e.op = "q.exc" THEN e.a.perc ELSE BZero>>
AnswerKey(e, ob) == <<Question(e), ob.h0, ob.T0>>
SameAnswer(r, s) == \A k \in DOMAIN r : r[k] = s[k] \/ Agree(r[k], s[k], 12)
AnswerFails(e, hp) ==
  IF e.op \notin Asks \/ ~Has(hp, e.o) \/ ~e.ok THEN {}
  ELSE LET k == AnswerKey(e, hp.obj[e.o])
           old == SelectSeq(hp.ans, LAMBDA m : m.key = k)
       IN Fail(\A i \in 1..Len(old) : SameAnswer(e.r, old[i].r), "C04:same-answer-in-any-history")
AnswerMemo(e, hp) == IF e.op \in Asks /\ Has(hp, e.o) /\ e.ok THEN Append(hp.ans, [key |-> AnswerKey(e, hp.obj[e.o]), r |-> e.r]) ELSE hp.ans

(* clauses that belong to more than one property *)
Also(c, op) ==
  CASE c \in {"C13:Tp", "C13:Tps"} -> {"C12:peak-period-of-a-spectrum-object"}
    [] c \in {"C13:Hm0", "C13:Tmm10", "C13:Tm01", "C13:Tm02", "C13:Hm0_HF", "C13:Hm0_LF", "C13:Tmm10_HF", "C13:Tmm10_LF"} -> {"C11:parameter-of-a-spectrum-object"}
    [] c \in {"C03:number-of-waves", "C03:number-of-crossings", "C03:crossing-times", "C03:crossing-between-samples"} -> {"C01:crossings-of-a-series"}
    [] op = "series.new" /\ c \in {"C03:one-entry-per-wave", "C03:height", "C03:period"} -> {"C02:waves-of-a-series"}
    [] op \in Asks /\ c \in {"C19:arguments-unchanged:" \o op} -> {"C04:other-tables-unchanged"}
    [] op \in {"plot.series", "plot.spec", "plot.exceed", "plot.rayleigh", "plot.hist"}
       /\ c \in {"C19:series-unchanged:" \o op, "C19:arguments-unchanged:" \o op, "C19:random-state-untouched:" \o op, "C13:spectrum-unchanged",
                   "C13:other-parameters-unchanged", "C04:number-of-waves-changed", "C04:height-period-pairs-kept"} -> {"C23:plotting-changes-nothing"}
    [] OTHER -> {}

StepFails(e, hp, D(_)) ==
  LET bad == StepFailsOwn(e, hp, D) \cup AnswerFails(e, hp) \cup WarnFails(e, hp)
  IN bad \cup UNION {Also(c, e.op) : c \in bad}
     \cup (IF bad # {} /\ Returned(hp, e.o) THEN {"C24:answers-of-a-returned-object"} ELSE {})

StepHeap(e, hp, D(_)) ==
  IF e.op \in {"synth", "synth.obj", "series.synth"} THEN [hp EXCEPT !.synth = SynthMemo(e, hp)]
  ELSE IF e.op = "user.seed" THEN [hp EXCEPT !.synth = Append(@, [key |-> <<>>, seed |-> e.a.seed, gen |-> Restarts(@) + 1, x |-> 0])]
  ELSE IF e.op = "spec.get" /\ Has(hp, e.o) THEN IF "at" \in DOMAIN e.st THEN [hp EXCEPT !.obj[e.o].at = e.st.at] ELSE hp
  ELSE IF ~e.ok THEN hp
  ELSE IF e.op = "waves.new" THEN [hp EXCEPT !.obj = Append(@, WavesObj(e, D))]
  ELSE IF e.op \in {"series.new", "series.adopt"} THEN [hp EXCEPT !.obj = Append(@, [SeriesObj(e, D) EXCEPT !.via = e.op \in Adopts])]
  ELSE IF e.op \in {"spec.new", "spec.adopt"} THEN [hp EXCEPT !.obj = Append(@, [SpecObj(e, D) EXCEPT !.via = e.op \in Adopts])]
  ELSE IF e.op \in OnWaves /\ Has(hp, e.o) THEN [hp EXCEPT !.obj[e.o].h = V(D, e.st.h), !.obj[e.o].T = V(D, e.st.T), !.ans = AnswerMemo(e, hp)]
  ELSE IF e.op = "series.reanalyse" /\ Has(hp, e.o) THEN [hp EXCEPT !.obj[e.o] = [SeriesObj(e, D) EXCEPT !.via = hp.obj[e.o].via]]
  ELSE IF e.op \in OnSeries /\ Has(hp, e.o) THEN [hp EXCEPT !.obj[e.o] = [SeriesObj(e, D) EXCEPT !.h0 = hp.obj[e.o].h0, !.T0 = hp.obj[e.o].T0, !.via = hp.obj[e.o].via]]
  ELSE IF e.op = "plot.spec" /\ Has(hp, e.o) THEN [hp EXCEPT !.obj[e.o].at = e.st.at]
  ELSE hp
=============================================================================
