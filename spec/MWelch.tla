------------------------------ MODULE MWelch ------------------------------
(***************************************************************************)
(* Set-ups of the Welch estimate for signals of N samples: every segment        *)
(* length, overlap and padding, with a pulse at each position.                   *)
(***************************************************************************)
EXTENDS Toolbox, Json
CONSTANTS Lengths, Windows2, Signals
VARIABLES N, M, ov, pad, kind, sig

Init == N \in Lengths /\ M = 2 /\ ov = 0 /\ pad = 0 /\ kind \in Windows2 /\ sig \in Signals
Longer == M < N + 1 /\ ov = 0 /\ pad = 0 /\ M' = M + 1 /\ UNCHANGED <<N, ov, pad, kind, sig>>
Overlap == ov < M - 1 /\ ov + 1 < N /\ pad = 0 /\ ov' = ov + 1 /\ UNCHANGED <<N, M, pad, kind, sig>>
Pad == pad = 0 /\ pad' \in {M, M + 1, 2 * M} /\ UNCHANGED <<N, M, ov, kind, sig>>
Next == Longer \/ Overlap \/ Pad
vars == <<N, M, ov, pad, kind, sig>>
Spec == Init /\ [][Next]_vars
Valid == ov < Min2(M, N)
Emit == Valid => PrintT("SC|" \o ToJson([N |-> N, M |-> M, ov |-> ov, pad |-> pad, kind |-> kind, sig |-> sig]))

Signal == TLCEval([i \in 1..N |-> FInt(IF sig = 0 THEN ((5 * i * i + i) % 7) - 3 ELSE IF i = sig THEN 1 ELSE 0)])
Seg == Min2(M, N)
Ov == IF ov = 0 THEN Seg \div 2 ELSE ov
L == IF pad = 0 THEN Seg ELSE Max2(pad, Seg)
W == Welch(Signal, One, kind, Seg, Ov, L, Idx(0, L \div 2))
Positive == Valid => \A k \in 1..Len(W) : W[k][1] >= 0
(* Parseval: the density of one padded segment integrates to the mean square of the windowed segment *)
Parseval ==
  Valid /\ (N - Ov) \div (Seg - Ov) = 1 =>
    LET win == Window(kind, Seg)
        s == SubSeq(Signal, 1, Seg)
        m == VMean(s)
        y == TLCEval([i \in 1..Seg |-> FMul(win[i], BSub(s[i], m))])
    IN Near(FOver(BSum(W), L), FDiv(VSq(y), VSq(win)), TenPow(20))
=============================================================================
