------------------------------- MODULE MSea -------------------------------
(***************************************************************************)
(* Model spectra on small axes (JONSWAP and Pierson-Moskowitz) with the peak    *)
(* on, between and beyond the bins; and foreshores for the distribution of      *)
(* Battjes and Groenendijk.                                                     *)
(***************************************************************************)
EXTENDS Toolbox, Json
CONSTANTS Mode, MaxBins
VARIABLES n, first, peak, gam, part

Gammas == <<FRat(1, 1), FRat(33, 10), FRat(7, 1), FRat(1, 2)>>
Init == n = 5 /\ first \in {0, 1} /\ peak = 3 /\ gam = 1 /\ part = 0
Longer == n < MaxBins /\ peak = 3 /\ gam = 1 /\ part = 0 /\ n' = n + 1 /\ UNCHANGED <<first, peak, gam, part>>
Peak == peak < 4 * n + 8 /\ gam = 1 /\ part = 0 /\ peak' = peak + 1 /\ UNCHANGED <<n, first, gam, part>>        \* in quarter bins
Gamma == gam < Len(Gammas) /\ part = 0 /\ gam' = gam + 1 /\ UNCHANGED <<n, first, peak, part>>
Part == part = 0 /\ part' \in {1, 2} /\ UNCHANGED <<n, first, peak, gam>>
Next == Longer \/ Peak \/ Gamma \/ Part
vars == <<n, first, peak, gam, part>>
Spec == Init /\ [][Next]_vars
Emit == PrintT("SC|" \o ToJson([n |-> n, first |-> first, peak |-> peak, gam |-> gam, part |-> part]))

F == TLCEval([i \in 1..n |-> FInt(first + i - 1)])
E == Jonswap(F, FRat(peak, 4), Gammas[gam])
Positive == \A i \in 1..n : E[i][1] >= 0
NothingAtZero == first = 0 => E[1] = BZero
(* with the peak on a bin, that bin is the highest (gamma >= 1) *)
PeakOnBin == (peak % 4 = 0 /\ gam < 4 /\ peak \div 4 >= first /\ peak \div 4 <= first + n - 1 /\ peak > 0)
             => \A i \in 1..n : FLe(E[i], E[peak \div 4 - first + 1])
(* enhancement: the ratio to gamma = 1, normalised at the peak, is at most one *)
Enhanced == LET B == Jonswap(F, FRat(peak, 4), One) IN gam \in {2, 3} => \A i \in 1..n : FLe(E[i], BAdd(B[i], TenPow(28)))
=============================================================================
