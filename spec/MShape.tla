------------------------------ MODULE MShape ------------------------------
(***************************************************************************)
(* Spectra bin by bin: every density over Values with MinBins..MaxBins bins     *)
(* on the axis First, First + 1, ...; with limits from a window of half bins.    *)
(***************************************************************************)
EXTENDS Toolbox, Json
CONSTANTS Values, MinBins, MaxBins, Firsts, Windows
VARIABLES S, first, win             \* win = <<lo, hi>> in half bins from the first bin; <<-99, -99>>: no limits

Off == -99
Axis(m) == TLCEval([i \in 1..m |-> FInt(first + i - 1)])
Num == TLCEval([i \in 1..Len(S) |-> FInt(S[i])])
Init == S = <<>> /\ first \in Firsts /\ win = <<Off, Off>>
Bin == /\ Len(S) < MaxBins /\ win = <<Off, Off>>
       /\ \E v \in Values : S' = Append(S, v)
       /\ UNCHANGED <<first, win>>
Narrow == /\ Windows /\ win = <<Off, Off>> /\ Len(S) >= MinBins
          /\ \E a \in ({Off} \cup (0..(2 * Len(S) - 2))), b \in ({Off} \cup (0..(2 * Len(S) + 2))) :
               /\ a # Off \/ b # Off
               /\ a # Off /\ b # Off => a <= b
               /\ win' = <<a, b>>
          /\ UNCHANGED <<S, first>>
Next == Bin \/ Narrow
vars == <<S, first, win>>
Spec == Init /\ [][Next]_vars
Enough == Len(S) >= MinBins /\ \E i \in 1..Len(S) : S[i] > 0

Emit == Enough => PrintT("SC|" \o ToJson([S |-> S, first |-> first, lo |-> win[1], hi |-> win[2]]))

Lim(v) == IF v = Off THEN Minus1 ELSE BAdd(FInt(first), FRat(v, 2))
Moment(m) == MomentSet(Axis(Len(S)), Num, m, Lim(win[1]), Lim(win[2]))

(* ------------------------------- moments -------------------------------- *)
(* the admitted moments are at most four, and never negative for m = 0 with a density of one value *)
FewMoments == Enough => \A m \in {-1, 0, 1, 2} : Cardinality(Moment(m)) <= 4
(* Simpson's rule is exact for parabolas *)
Exact == Len(S) >= 3 => LET n == Len(S)
                            sq == TLCEval([i \in 1..n |-> FInt(i * i)])
                        IN Near(Simpson(sq, One), FRat(n * n * n - 1, 3), TenPow(24))
(* moments are linear in the density and scale with the axis *)
Linear == Enough /\ win = <<Off, Off>> =>
            LET n == Len(S)
                f == Axis(n)
                d == TLCEval([i \in 1..n |-> FTimes(Num[i], 3)])
                f2 == TLCEval([i \in 1..n |-> FTimes(f[i], 2)])
            IN \A m \in {-1, 0, 1, 2} :
                 \A p \in MomentSet(f, Num, m, Minus1, Minus1) :
                   /\ \A q \in MomentSet(f, d, m, Minus1, Minus1) : Near(q[1], FTimes(p[1], 3), TenPow(22))
                   /\ \A q \in MomentSet(f2, Num, m, Minus1, Minus1) : Near(q[1], FMul(p[1], FMul(Two, FPow(Two, m))), TenPow(22))
(* mean periods lie between the periods of the lowest and the highest bin with energy, up to the sign changes of the rule *)
Wider == Enough /\ win = <<Off, Off>> => \A v \in Hm0Set(Axis(Len(S)), Num, Minus1, Minus1) : v[1] >= 0

(* ----------------------------- peak periods ----------------------------- *)
PeakInv ==
  Enough /\ first > 0 =>
    LET f == Axis(Len(S))
        w == PeakBins(f, Lim(win[1]), Lim(win[2]))
        T(k) == FDiv(One, f[k])
    IN w[1] <= w[2] =>
       /\ Cardinality({k \in 1..Len(S) : TpOk(T(k), f, Num, w)}) = 1                \* one peak period
       /\ \A k \in 1..Len(S) : TpOk(T(k), f, Num, w) => w[1] <= k /\ k <= w[2] /\ \A j \in w[1]..w[2] : S[j] <= S[k]
       \* a single highest bin inside the band: the smoothed peak is within half a bin of it when its neighbours are equal
       /\ \A k \in (w[1] + 1)..(w[2] - 1) :
            (\A j \in w[1]..w[2] : j = k \/ S[j] < S[k]) /\ S[k - 1] = S[k + 1] => TpsOk(T(k), f, Num, w)
       /\ \A k \in (w[1] + 1)..(w[2] - 1) :
            (\A j \in w[1]..w[2] : j = k \/ S[j] < S[k]) /\ S[k - 1] < S[k + 1] /\ w[2] - w[1] > 1 => ~TpsOk(T(k), f, Num, w)
=============================================================================
