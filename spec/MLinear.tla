------------------------------ MODULE MLinear ------------------------------
(***************************************************************************)
(* Dispersion on a lattice of frequencies and depths (steps of a factor        *)
(* 10^(1/2)), and arrays of gauges at whole positions.                          *)
(***************************************************************************)
EXTENDS Toolbox, Json
CONSTANTS Mode, WMin, WMax, HMin, HMax, MaxGauges, Lengths
VARIABLES a, b, pos, len

RECURSIVE Ten(_)                     \* 10^(k/2)
Ten(k) == IF k = 0 THEN One ELSE IF k = 1 THEN FSqrt(FInt(10)) ELSE IF k > 1 THEN FTimes(Ten(k - 2), 10) ELSE FOver(Ten(k + 2), 10)

Init == /\ a = WMin /\ b = HMin
        /\ pos = IF Mode = "gauges" THEN <<0>> ELSE <<>>
        /\ len \in Lengths
Faster == Mode = "dispersion" /\ a < WMax /\ a' = a + 1 /\ UNCHANGED <<b, pos, len>>
Deeper == Mode = "dispersion" /\ b < HMax /\ b' = b + 1 /\ UNCHANGED <<a, pos, len>>
Gauge == /\ Mode = "gauges" /\ Len(pos) < MaxGauges
         /\ \E d \in {1, 2} : pos' = Append(pos, pos[Len(pos)] + d)
         /\ UNCHANGED <<a, b, len>>
Depth == Mode = "gauges" /\ b < HMax /\ b' = b + 1 /\ UNCHANGED <<a, pos, len>>
Next == Faster \/ Deeper \/ Gauge \/ Depth
vars == <<a, b, pos, len>>
Spec == Init /\ [][Next]_vars
Emit == (Mode = "dispersion" \/ Len(pos) >= 2) => PrintT("SC|" \o ToJson([a |-> a, b |-> b, pos |-> pos, n |-> len]))

K(i, j) == WaveNumber(Ten(i), Ten(j))
(* the specification's own wave numbers satisfy the relation *)
Solves == Mode = "dispersion" => DispOk(K(a, b), Ten(a), Ten(b), Gravity)
(* longer than in deep water is impossible; so is faster than in shallow water *)
Bounds == Mode = "dispersion" => LET k == K(a, b) IN /\ FLe(FDiv(FSq(Ten(a)), Gravity), BAdd(k, TenPow(24)))
                                                      /\ FLe(FDiv(Ten(a), FSqrt(FMul(Gravity, Ten(b)))), BAdd(k, BAdd(TenPow(24), Rel(k, 11))))
(* shorter waves at a higher frequency, longer waves in deeper water *)
Monotone == Mode = "dispersion" => /\ (a < WMax => FLt(K(a, b), K(a + 1, b)))
                                   /\ (b < HMax => FLe(K(a, b + 1), BAdd(K(a, b), Rel(K(a, b), 11))))

(* a wave that is only incident is separated as such, and likewise reflected *)
Separate ==
  Mode = "gauges" /\ Len(pos) >= 2 =>
    LET G == Len(pos)
        P == TLCEval([g \in 1..G |-> FInt(pos[g])])
        W == TLCEval([g \in 1..G |-> One])
        k == FRat(7, 10)
        inc == <<Two, One>>
        ref == <<Half, BNeg(One)>>
        X == TLCEval([g \in 1..G |-> CAdd(CMul(inc, CConj(Expi(FMul(k, GaugeDist(P, g))))), CMul(ref, Expi(FMul(k, GaugeDist(P, g)))))])
        R == Split(X, k, P, W)
    IN FLe(R.sdet, TenPow(3)) \/ (CNear(R.inc[1], R.inc[2], inc, TenPow(20)) /\ CNear(R.ref[1], R.ref[2], ref, TenPow(20)))
=============================================================================
