----------------------------- MODULE MAverage -----------------------------
(***************************************************************************)
(* Averaging n bins (df = 1) to a coarser axis: the desired step grows in       *)
(* quarters of a bin.                                                          *)
(***************************************************************************)
EXTENDS Toolbox, Json
CONSTANTS MinBins, MaxBins
VARIABLES n, want                   \* want in quarters

Axis(m) == TLCEval([i \in 1..m |-> FInt(i - 1)])
(* numbers without structure *)
Val(i) == FInt(((7 * i * i + 3 * i) % 11) + 1)
Vals(m) == TLCEval([i \in 1..m |-> Val(i)])
Factors == AvgFactors(Axis(n), FRat(want, 4))

Init == n \in MinBins..MaxBins /\ want = 0
Coarser == want < 4 * (n + 2) /\ want' = want + 1 /\ UNCHANGED n
Next == Coarser
vars == <<n, want>>
Spec == Init /\ [][Next]_vars

Emit == PrintT("SC|" \o ToJson([n |-> n, want |-> want]))

Positive == \A q \in Factors : q >= 1
Rounds == \A q \in Factors : q = 1 \/ (4 * q - 2 <= want /\ want <= 4 * q + 2)
Ties == Cardinality(Factors) = 1 \/ want % 4 = 2
Monotone == [][\A a \in AvgFactors(Axis(n), FRat(want, 4)), b \in AvgFactors(Axis(n), FRat(want', 4)) : a <= b]_vars
(* energy: the bands hold the energy of the bins they cover *)
Energy == \A q \in Factors : LET A == Averaged(Vals(n), q) IN
            /\ Len(A) = n \div q
            /\ A # <<>> => Near(FTimes(BSum(A), q), BSum(SubSeq(Vals(n), 1, Len(A) * q)), TenPow(24))
(* averaging twice is averaging once with the product of the factors *)
Twice == \A q \in Factors : \A r \in 1..3 : VNear(Averaged(Averaged(Vals(n), q), r), Averaged(Vals(n), q * r), TenPow(24))
(* the frequency of a band is the mean of the frequencies of its bins *)
Centres == \A q \in Factors : LET A == Averaged(Axis(n), q) IN \A i \in 1..Len(A) : Near(A[i], FRat(2 * (i - 1) * q + q - 1, 2), TenPow(24))
=============================================================================
