------------------------------ MODULE MBand ------------------------------
(***************************************************************************)
(* The band filter on n bins (0 .. n-1): limits move over the axis in half     *)
(* bins, so every limit is on a bin or halfway between two.  hi = Top + 1 is     *)
(* an infinite upper limit.                                                    *)
(***************************************************************************)
EXTENDS Toolbox, Json
CONSTANTS MinBins, MaxBins
VARIABLES n, lo, hi                 \* limits in half bins

Top == 2 * (n - 1) + 3
F(k) == FInt(2 * k)                 \* frequency of bin k in half bins
Limit2(v) == IF v > Top THEN PInf ELSE FInt(v)
Pass(l, h) == {k \in 0..(n - 1) : Passes(k, F(k), F(n - 1), Limit2(l), Limit2(h), BZero, TRUE) = "yes"}

Init == n \in MinBins..MaxBins /\ lo = -1 /\ hi = -1
RaiseLo == lo < Top /\ lo' = lo + 1 /\ UNCHANGED <<n, hi>>
RaiseHi == hi <= Top /\ hi' = hi + 1 /\ UNCHANGED <<n, lo>>
Next == RaiseLo \/ RaiseHi
vars == <<n, lo, hi>>
Spec == Init /\ [][Next]_vars

Emit == PrintT("SC|" \o ToJson([n |-> n, lo |-> lo, hi |-> IF hi > Top THEN -9 ELSE hi]))

NoMean == 0 \notin Pass(lo, hi)
(* a wider band keeps more *)
Wider == [][(lo' = lo => Pass(lo, hi) \subseteq Pass(lo', hi')) /\ (hi' = hi => Pass(lo', hi') \subseteq Pass(lo, hi))]_vars
(* complementary bands share nothing and miss nothing but the mean *)
Partition == LET a == Pass(-1, hi) b == Pass(hi, Top + 1) IN a \cap b = {} /\ a \cup b = 1..(n - 1)
Interval == \A k \in Pass(lo, hi) : \A m \in Pass(lo, hi) : \A j \in k..m : j \in Pass(lo, hi)
Inside == \A k \in Pass(lo, hi) : lo <= 2 * k /\ (2 * k < hi \/ k = n - 1)
Apart == Passes(1, F(1), F(n - 1), FInt(3), FInt(2), BZero, TRUE) = "no"
=============================================================================
