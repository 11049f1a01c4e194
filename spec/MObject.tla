------------------------------ MODULE MObject ------------------------------
(***************************************************************************)
(* Histories of requests on one Spectrum object.  at[p] tells with which       *)
(* limits parameter p was last determined (Absent: not yet).  Limits are        *)
(* numbered: 1 none, 2 lower only, 3 upper only, 4 both.                         *)
(***************************************************************************)
EXTENDS Toolbox, Json
CONSTANTS Params, Limits, Depth, Plots
VARIABLES at, hist

All13 == {"Hm0", "Hm0_HF", "Hm0_LF", "Tp", "Tps", "Tmm10", "Tmm10_HF", "Tmm10_LF", "Tm01", "Tm02", "s0p", "smm10", "smm10_HF"}
Lo(l) == IF l \in {2, 4} THEN FInt(2) ELSE Minus1
Hi(l) == IF l \in {3, 4} THEN FInt(5) ELSE Minus1
Tag(l) == FInt(l)

Init == at = [p \in All13 |-> Absent] /\ hist = <<>>
Get(q, l) ==
  LET side == SideParams(q, at, Lo(l), Hi(l))
      of(p) == IF p = "Tmm10" /\ q # "smm10" /\ q # "Tmm10" THEN Tag(1) ELSE Tag(l)
  IN /\ at' = [p \in All13 |-> IF p = q \/ p \in side THEN of(p) ELSE at[p]]
     /\ hist' = Append(hist, [q |-> q, l |-> l])
Plot == Plots /\ at' = at /\ \E b \in {0, 1} : hist' = Append(hist, [q |-> "plot", l |-> b])
Next == Len(hist) < Depth /\ (Plot \/ \E q \in Params, l \in Limits : Get(q, l))
vars == <<at, hist>>
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = Depth => PrintT("SC|" \o ToJson([qs |-> hist]))

LastAsk == hist[Len(hist)]
(* a direct request always leaves the parameter determined with the limits of that request *)
Fresh == hist # <<>> /\ LastAsk.q # "plot" => at[LastAsk.q] = Tag(LastAsk.l)
(* nothing is forgotten *)
Kept == [][\A p \in All13 : at[p] # Absent => at'[p] # Absent]_vars
(* a request changes only what it asks for and what that needs *)
Small == [][\A p \in All13 : at'[p] # at[p] => p = hist'[Len(hist')].q \/ p \in {"Hm0", "Tps", "Tmm10", "Hm0_HF", "Tmm10_HF"}]_vars
(* a wave steepness always has the height and period it is made of *)
Parents == \A s \in DOMAIN SteepOf : at[s] # Absent => \A p \in ToSet(SteepOf[s]) : at[p] # Absent
(* limits never reach Tm-1,0 through the high- and low-frequency parameters *)
Default == [][hist'[Len(hist')].q \in HighLow \cup {"smm10_HF"} => at'["Tmm10"] \in {at["Tmm10"], Tag(1)}]_vars
(* heights, periods and steepnesses that were asked for without limits on a fresh object are those of the whole spectrum *)
Whole == (\A i \in 1..Len(hist) : hist[i].l = 1 \/ hist[i].q = "plot") => \A p \in All13 : at[p] \in {Absent, Tag(1)}
=============================================================================
