----------------------------- MODULE MForeshore -----------------------------
(***************************************************************************)
(* Foreshores for the Battjes-Groenendijk distribution: depth, slope, wave       *)
(* height and number of waves on a lattice.                                     *)
(***************************************************************************)
EXTENDS Toolbox, Json
CONSTANTS MaxDepth
VARIABLES d, slope, hm0, n

Slopes == <<15, 30, 100, 250, 1000>>
Ns == <<2, 10, 1000, 5000>>
Init == d = 1 /\ slope = 1 /\ hm0 \in {1, 4} /\ n = 1
Deeper == d < MaxDepth /\ slope = 1 /\ n = 1 /\ d' = d + 1 /\ UNCHANGED <<slope, hm0, n>>
Flatter == slope < Len(Slopes) /\ n = 1 /\ slope' = slope + 1 /\ UNCHANGED <<d, hm0, n>>
More == n < Len(Ns) /\ n' = n + 1 /\ UNCHANGED <<d, slope, hm0>>
Next == Deeper \/ Flatter \/ More
vars == <<d, slope, hm0, n>>
Spec == Init /\ [][Next]_vars
Emit == PrintT("SC|" \o ToJson([d |-> d, cota |-> Slopes[slope], hm0 |-> hm0, n |-> Ns[n]]))

Depth(k) == FRat(k, 4)
Htr(k) == FMul(BAdd(FRat(35, 100), FDiv(FRat(58, 10), FInt(Slopes[slope]))), Depth(k))
Rms(k) == BGRms(FInt(hm0), Depth(k))
(* the transition height, relative to the root-mean-square height, grows with the depth: one regime change *)
OneChange == FLt(FDiv(Htr(d), Rms(d)), FDiv(Htr(d + 1), Rms(d + 1)))
(* at most the deep-water value sqrt(8) Hm0 / 4 (2.69 / 2.83 of it) plus the shallow-water part *)
RmsAbove == FLe(FMul(FRat(2690, 4000), FInt(hm0)), Rms(d))
GammaIdentity == Near(LowerGamma(A2, FInt(30)), GammaA2, TenPow(9))
=============================================================================
