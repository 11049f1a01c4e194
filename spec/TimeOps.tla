------------------------------ MODULE TimeOps ------------------------------
(***************************************************************************)
(* Actions of the toolbox in the time domain.  For every operation OP of the *)
(* toolbox, OPFails(e, hp, D) is the set of clauses that the observed event  *)
(* e violates in heap hp: an event is a step the specification allows iff     *)
(* the set is empty.  D maps array references of the event to arrays.         *)
(* Clauses are named "<property>:<clause>".                                   *)
(*                                                                          *)
(* Heap entries of wave objects:                                            *)
(*   [kind |-> "waves", h, T, sig |-> FALSE]            a WaveHeights object  *)
(*   [kind |-> "waves", h, T, sig |-> TRUE, t, x, tc]   a Series object       *)
(* and h0, T0: the waves as they were when the object got them; via: whether   *)
(* the object was returned by a request                                        *)
(***************************************************************************)
EXTENDS Waves, Fourier

V(D(_), i) == D(i).v
Fin(D(_), i) == D(i).fin

Rejected(p) == {p \o "rejected"}

(* ------------------------- zero crossings: C01 -------------------------- *)
Dir(word) == IF word \in {"down", "Down", "DOWN"} THEN "down" ELSE IF word \in {"up", "Up", "UP"} THEN "up" ELSE "unknown"
CrossOpFails(e, t, x, D(_)) ==
  IF Dir(e.a.dir) = "unknown" THEN Fail(~e.ok, "C01:unknown-direction-rejected")
  ELSE IF ~e.ok THEN Rejected("C01:")
  ELSE IF ~Fin(D, e.r.tc) THEN {"C01:finite"}
  ELSE CrossingFails("C01:", t, x, Dir(e.a.dir), e.r.n, V(D, e.r.tc))

(* ------------------------ individual waves: C02 ------------------------- *)
WaveRec(e, D(_)) == [h |-> V(D, e.r.h), T |-> V(D, e.r.T), ac |-> V(D, e.r.ac), at |-> V(D, e.r.at),
                     tcr |-> V(D, e.r.tcr), ttr |-> V(D, e.r.ttr)]
WaveRecFin(e, D(_)) == \A i \in {e.r.h, e.r.T, e.r.ac, e.r.at, e.r.tcr, e.r.ttr} : Fin(D, i)
IndWavesFails(e, D(_)) ==
  IF ~e.ok THEN Rejected("C02:")
  ELSE IF ~WaveRecFin(e, D) THEN {"C02:finite"}
  ELSE WavesFails("C02:", V(D, e.a.t), V(D, e.a.x), V(D, e.a.tc), WaveRec(e, D))

(* ------------------- Series carries its own waves: C03 ------------------ *)
HeightsPeriodsFails(p, t, x, tc, h, T) ==
  LET n == NWaves(tc)
      hs == Rel(VMaxAbs(x), 12)
      tt == BAdd(Rel(MeanStep(t), 9), FTimes(AxisRound(t), 8))
      W == TLCEval([k \in 1..n |-> Wave(t, x, tc, k)])
  IN IF Len(h) # n \/ Len(T) # n THEN {p \o "one-entry-per-wave"}
     ELSE IF TooFine(x) THEN {}
     ELSE Fail(\A k \in 1..n : Near(h[k], W[k].height, hs), p \o "height")
          \cup Fail(\A k \in 1..n : Near(T[k], W[k].period, tt), p \o "period")

SeriesStateFails(p, e, t, x, D(_)) ==
  LET tc == V(D, e.st.tc)
  IN IF ~(Fin(D, e.st.tc) /\ Fin(D, e.st.h) /\ Fin(D, e.st.T) /\ Fin(D, e.st.t) /\ Fin(D, e.st.x)) THEN {p \o "finite"}
     ELSE Fail(V(D, e.st.t) = t, p \o "time-axis-kept")
          \cup Fail(V(D, e.st.x) = x, p \o "signal-kept")
          \cup Fail(e.st.nt = Len(t), p \o "nt")
          \cup Fail(Near(e.st.dt, MeanStep(t), BAdd(Rel(MeanStep(t), 11), FTimes(AxisRound(t), 8))), p \o "dt")
          \cup Fail(e.st.n = Len(V(D, e.st.h)), p \o "nwave")
          
SeriesNewFails(e, D(_)) ==
  LET t == V(D, e.a.t)
      x == V(D, e.a.x)
  IN IF ~e.ok THEN Rejected("C03:")
     ELSE SeriesStateFails("C03:", e, t, x, D)
          \cup IF ~Fin(D, e.st.tc) THEN {}
               ELSE LET f == CrossingFails("C03:", t, x, "down", e.st.n, V(D, e.st.tc))
                    IN IF f # {} THEN f
                       ELSE HeightsPeriodsFails("C03:", t, x, V(D, e.st.tc), V(D, e.st.h), V(D, e.st.T))

SeriesObj(e, D(_)) ==
  [kind |-> "waves", h |-> V(D, e.st.h), T |-> V(D, e.st.T), sig |-> TRUE, t |-> V(D, e.st.t), x |-> V(D, e.st.x),
   tc |-> V(D, e.st.tc), h0 |-> V(D, e.st.h), T0 |-> V(D, e.st.T), via |-> FALSE]
WavesObj(e, D(_)) == [kind |-> "waves", h |-> V(D, e.st.h), T |-> V(D, e.st.T), sig |-> FALSE,
                      h0 |-> V(D, e.st.h), T0 |-> V(D, e.st.T), via |-> FALSE]

(* re-analysis of a Series with another crossing type, a low-frequency cut-off and a minimum height *)
At(s, idx) == [i \in 1..Len(idx) |-> s[idx[i]]]
ReanalyseFails(e, ob, D(_)) ==
  LET t  == ob.t
      x  == ob.x
      sl == IF e.a.fcut[1] = 0 THEN BZero ELSE Rel(VMaxAbs(x), 10)
      Sharp(y) == e.a.fcut[1] = 0 \/ \A i \in 1..Len(y) : FLt(sl, FAbs(y[i]))
  IN IF ~e.ok THEN Rejected("C03:")
     ELSE IF ~(WaveRecFin(e, D) /\ Fin(D, e.r.tcf)) THEN {"C03:finite"}
     ELSE IF TooFine(x) THEN {}
     ELSE IF \E k \in 1..NWaves(V(D, e.r.tcf)) : LET w == WaveSpan(t, V(D, e.r.tcf), k) IN w[1] > w[2] \/ w[2] > Len(t)
     THEN {"C03:crossings-of-the-high-passed-signal"}
     ELSE LET full == V(D, e.r.tcf)
              n    == NWaves(full)
              W    == TLCEval([k \in 1..n |-> Wave(t, x, full, k)])
              hs   == Rel(VMaxAbs(x), 12)
              kept == SelectSeq(Idx(1, n), LAMBDA k : FLe(e.a.minw, W[k].height))
              \* a height exactly at the minimum (crest - trough is then an exact number) is kept
              Gap(k) == FAbs(BSub(W[k].height, e.a.minw))
              edge == \E k \in 1..n : /\ FLe(Gap(k), hs) /\ e.a.minw[1] # 0
                                      /\ ~(Gap(k)[1] = 0 /\ Dyadic(W[k].crest) /\ Dyadic(W[k].trough))
              tol  == BAdd(TimeTol(t), IF e.a.fcut[1] = 0 THEN BZero ELSE Rel(MeanStep(t), 6))
          IN SeriesStateFails("C03:", e, t, x, D)
             \cup Fail(\E y \in HighPasses(t, x, e.a.fcut) :
                          Sharp(y) => LET cx == CrossingIdx(y, Dir(e.a.dir))
                                      IN Len(full) = Len(cx) /\ \A k \in 1..Len(cx) : Near(full[k], CrossingTime(t, y, cx[k]), tol),
                       "C03:crossings-of-the-high-passed-signal")
             \cup (IF edge THEN {}
                   ELSE IF \E s \in {e.r.h, e.r.T, e.r.ac, e.r.at, e.r.tcr, e.r.ttr} : Len(V(D, s)) # Len(kept)
                   THEN {"C03:waves-below-the-minimum-removed"}
                   ELSE LET r == WaveRec(e, D)
                            m == Len(kept)
                        IN Fail(\A k \in 1..m : Near(r.h[k], W[kept[k]].height, hs), "C03:height")
                           \cup Fail(\A k \in 1..m : Near(r.T[k], W[kept[k]].period, BAdd(Rel(MeanStep(t), 9), FTimes(AxisRound(t), 8))), "C03:period")
                           \cup Fail(\A k \in 1..m : r.ac[k] = W[kept[k]].crest /\ r.at[k] = W[kept[k]].trough, "C03:crest-trough")
                           \cup Fail(\A k \in 1..m : (r.tcr[k] = W[kept[k]].tcrest \/ Fine(W[kept[k]].crest)) /\ (r.ttr[k] = W[kept[k]].ttrough \/ Fine(W[kept[k]].trough)), "C03:crest-trough-times")
                           \cup Fail(V(D, e.st.h) = r.h /\ V(D, e.st.T) = r.T, "C03:object-shows-the-analysis")
                           \cup Fail(V(D, e.st.tc) = At(full, SelectSeq(Idx(1, Len(full)), LAMBDA i : i > n \/ \E k \in 1..m : kept[k] = i)),
                                     "C03:crossings-of-the-kept-waves"))

(* --------------------- ranking and wave statistics: C04, C05 ------------ *)
WavesNewFails(e, D(_)) ==
  IF ~e.ok THEN Rejected("C04:")
  ELSE Fail(V(D, e.st.h) = V(D, e.a.h) /\ V(D, e.st.T) = V(D, e.a.T), "C04:waves-kept")
       \cup Fail(e.st.n = Len(V(D, e.a.h)), "C04:nwave")

(* whatever the operation, the object keeps the same waves, in the same or in ranked order *)
WaveStateFails(e, ob, mustRank, D(_)) ==
  LET h2 == V(D, e.st.h)
      T2 == V(D, e.st.T)
  IN Fail(e.st.n = Len(ob.h), "C04:nwave")
     \cup (IF h2 = ob.h /\ T2 = ob.T THEN Fail(mustRank => Ranked(ob.h), "C04:descending")
           ELSE RankFails("C04:", ob.h, ob.T, h2, T2))
     \cup (IF ob.sig THEN Fail(V(D, e.st.t) = ob.t /\ V(D, e.st.x) = ob.x, "C04:signal-untouched") ELSE {})

SortFails(e, ob, D(_)) == IF ~e.ok THEN Rejected("C04:") ELSE WaveStateFails(e, ob, TRUE, D)

HighestFails(e, ob, D(_)) ==
  LET bad == BCmp(e.a.frac, BZero) < 0 \/ BCmp(e.a.frac, One) > 0
  IN IF bad /\ Len(ob.h) > 0 THEN Fail(~e.ok, "C05:fraction-outside-0-1-rejected")
     ELSE IF ~e.ok THEN Rejected("C05:")
     ELSE LET cnt == IF e.op = "q.Hs" THEN {Len(ob.h) \div 3} ELSE FracCount(Len(ob.h), e.a.frac)
              h2  == V(D, e.st.h)
          IN WaveStateFails(e, ob, FALSE, D)
             \cup TopFails("C05:", Canon(ob.h, ob.T), cnt, e.r.h, e.r.T)
             \cup (IF Len(h2) = Len(ob.h) /\ Ranked(h2)
                   THEN TopOfOrderFails("C04:", h2, V(D, e.st.T), cnt, e.r.T) ELSE {})

ExceedOpFails(e, ob, D(_)) ==
  LET bad == BCmp(e.a.perc, BZero) < 0 \/ BCmp(e.a.perc, FInt(100)) > 0
  IN IF bad /\ Len(ob.h) > 0 THEN Fail(~e.ok, "C05:percentage-outside-0-100-rejected")
     ELSE IF ~e.ok THEN Rejected("C05:")
     ELSE WaveStateFails(e, ob, FALSE, D)
          \cup ExceedFails("C05:", Canon(ob.h, ob.T), ExcCount(Len(ob.h), e.a.perc), e.r.h)

H2pFails(e, ob, D(_)) ==
  IF ~e.ok THEN Rejected("C05:")
  ELSE WaveStateFails(e, ob, FALSE, D)
       \cup Fail(Agree(e.r.h, Rayleigh2(Hs(Canon(ob.h, ob.T))), 10), "C05:rayleigh-2-percent")
HrmsFails(e, ob, D(_)) ==
  IF Len(ob.h) = 0 THEN {}
  ELSE IF ~e.ok THEN Rejected("C05:")
  ELSE WaveStateFails(e, ob, FALSE, D) \cup Fail(Agree(e.r.h, Hrms(ob.h), 10), "C05:root-mean-square")
HmaxFails(e, ob, D(_)) ==
  IF Len(ob.h) = 0 THEN {}
  ELSE IF ~e.ok THEN Rejected("C05:")
  ELSE WaveStateFails(e, ob, FALSE, D) \cup Fail(e.r.h = VMax(ob.h), "C05:maximum")

(* the same as plain functions; ranked input is required *)
CoreSortFails(e, D(_)) ==
  LET h == V(D, e.a.h)
      T == V(D, e.a.T)
  IN IF Len(h) # Len(T) THEN Fail(~e.ok, "C04:different-lengths-rejected")
     ELSE IF ~e.ok THEN Rejected("C04:")
     ELSE RankFails("C04:", h, T, V(D, e.r.h), V(D, e.r.T))
CoreHighestFails(e, D(_)) ==
  LET h == V(D, e.a.h)
      T == V(D, e.a.T)
      bad == BCmp(e.a.frac, BZero) < 0 \/ BCmp(e.a.frac, One) > 0 \/ ~Ranked(h) \/ Len(h) # Len(T)
  IN IF bad THEN Fail(~e.ok, "C05:invalid-input-rejected")
     ELSE IF ~e.ok THEN Rejected("C05:")
     ELSE LET cnt == FracCount(Len(h), e.a.frac)
          IN TopFails("C05:", Canon(h, T), cnt, e.r.h, e.r.T)
             \cup TopOfOrderFails("C05:", h, T, cnt, e.r.T)
CoreExceedFails(e, D(_)) ==
  LET h == V(D, e.a.h)
      bad == BCmp(e.a.perc, BZero) < 0 \/ BCmp(e.a.perc, FInt(100)) > 0 \/ ~Ranked(h)
  IN IF bad THEN Fail(~e.ok, "C05:invalid-input-rejected")
     ELSE IF ~e.ok THEN Rejected("C05:")
     ELSE ExceedFails("C05:", [i \in 1..Len(h) |-> <<h[i], h[i]>>], ExcCount(Len(h), e.a.perc), e.r.h)
=============================================================================
