------------------------------- MODULE MHelp -------------------------------
(***************************************************************************)
(* All short arrays, grown value by value, and a value moving past them in      *)
(* quarters.                                                                   *)
(***************************************************************************)
EXTENDS Toolbox, Json
CONSTANTS Values, MaxLen
VARIABLES a, q                      \* the array (whole numbers) and the value in quarters

Arr == TLCEval([i \in 1..Len(a) |-> FInt(a[i])])
Here == FRat(q, 4)
Top == CHOOSE v \in Values : \A w \in Values : w <= v

Init == a \in {<<v>> : v \in Values} /\ q = -2
Grow == q = -2 /\ Len(a) < MaxLen /\ \E v \in Values : a' = Append(a, v) /\ UNCHANGED q
Move == q < 4 * Top + 2 /\ q' = q + 1 /\ UNCHANGED a
Next == Grow \/ Move
vars == <<a, q>>
Spec == Init /\ [][Next]_vars

Emit == PrintT("SC|" \o ToJson([a |-> a, q |-> q]))

Near1 == Nearest(Arr, Here)
Some == Near1 # {} /\ Cardinality({a[i] : i \in Near1}) <= 2
Few == Cardinality(Near1) = 1 \/ (Cardinality(Near1) = 2 /\ \A i, j \in Near1 : i # j => 4 * (a[i] + a[j]) = 2 * q)
(* where the value is one of the array, it is found at its first place *)
Found == \A i \in 1..Len(a) : 4 * a[i] = q => Near1 = {CHOOSE j \in 1..Len(a) : a[j] = a[i] /\ \A k \in 1..(j - 1) : a[k] # a[i]}
(* an axis is uniform exactly if it is an arithmetic progression upwards, wherever it starts *)
Steps == \A i \in 1..(Len(a) - 1) : a[i + 1] > a[i] /\ a[i + 1] - a[i] = a[2] - a[1]
Uniform == Uniformity(Arr) = IF Len(a) >= 2 /\ Steps THEN "yes" ELSE "no"
Moved == Uniformity([i \in 1..Len(a) |-> BAdd(Arr[i], FInt(1000 + q))]) = Uniformity(Arr)
(* a uniform axis: no value between its ends is further than half a step from the nearest *)
Half2 == Len(a) >= 2 /\ Steps /\ 4 * a[1] <= q /\ q <= 4 * a[Len(a)] => \A i \in Near1 : FLe(FTimes(Distance(Arr, i, Here), 2), FInt(a[2] - a[1]))
(* the nearest place does not move back when the value grows *)
Forward == [][\A i \in Nearest(Arr, Here), j \in Nearest(Arr, FRat(q', 4)) : Len(a) >= 2 /\ Steps /\ a' = a => i <= j]_vars
=============================================================================
