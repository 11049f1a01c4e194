------------------------------ MODULE MTable ------------------------------
(***************************************************************************)
(* Histories of requests on a table of waves.  The table is built wave by      *)
(* wave (heights from Heights, distinct periods); requests may leave it as it   *)
(* is or rank it; every history of Depth requests is printed and replayed.      *)
(***************************************************************************)
EXTENDS Toolbox, Json
CONSTANTS Heights, MaxWaves, Depth, Plots
VARIABLES h, T, cur, hist          \* the table as given, as it is now (a sequence of pairs), and the requests so far

Ask(op, n, d) == [op |-> op, n |-> n, d |-> d]
Requests == {Ask("sort", 0, 1), Ask("Hs", 0, 1), Ask("highest", 1, 2), Ask("highest", 1, 3), Ask("highest", 1, 1), Ask("exc", 50, 1), Ask("exc", 100, 1),
             Ask("exc", 2, 1), Ask("H2p", 0, 1), Ask("Hrms", 0, 1), Ask("Hmax", 0, 1)}
            \cup (IF Plots THEN {Ask("plot.exceed", 0, 1), Ask("plot.hist", 0, 1), Ask("plot.rayleigh", 0, 1), Ask("plot.rayleigh", 1, 1)} ELSE {})

Num(s) == TLCEval([i \in 1..Len(s) |-> FInt(s[i])])
Init == h = <<>> /\ T = <<>> /\ cur = <<>> /\ hist = <<>>
AddWave == /\ hist = <<>> /\ Len(h) < MaxWaves
           /\ \E v \in Heights : /\ h' = Append(h, v)
                                 /\ T' = Append(T, 3 + ((Len(h) * 2) % 5))
                                 /\ cur' = Append(cur, <<FInt(v), FInt(T'[Len(T')])>>)
           /\ UNCHANGED hist
Request == /\ Len(hist) < Depth
           /\ \E q \in Requests : hist' = Append(hist, q)
           /\ LET r == Stable([i \in 1..Len(cur) |-> cur[i][1]], [i \in 1..Len(cur) |-> cur[i][2]])
              IN cur' \in IF hist'[Len(hist')].op = "sort" THEN {r} ELSE {cur, r}
           /\ UNCHANGED <<h, T>>
Next == AddWave \/ Request
vars == <<h, T, cur, hist>>
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = Depth => PrintT("SC|" \o ToJson([h |-> h, T |-> T, qs |-> hist]))

(* the waves are the same whatever was asked, and ranked once ranked *)
SameBag == SameWaves(Num(h), Num(T), [i \in 1..Len(cur) |-> cur[i][1]], [i \in 1..Len(cur) |-> cur[i][2]])
StaysRanked == [][hist # <<>> /\ hist' # hist /\ Ranked([i \in 1..Len(cur) |-> cur[i][1]]) => cur' = cur]_vars
(* answers by their definition on the canonical table = answers by reading off the ranked order *)
Answers ==
  hist = <<>> =>
  LET C == Canon(Num(h), Num(T))
      R == Stable(Num(h), Num(T))
      n == Len(h)
  IN /\ \A m \in 1..n : /\ TopH(C, m) = FOver(BSum([i \in 1..m |-> R[i][1]]), m)
                        /\ LET g == TopTRange(C, m)
                               a == FOver(BSum([i \in 1..m |-> R[i][2]]), m)
                           IN FLe(g[1], a) /\ FLe(a, g[2])
                        /\ C[m][1] = R[m][1]
     /\ \A m \in 1..(n - 1) : FLe(TopH(C, m + 1), TopH(C, m))                      \* a smaller fraction is at least as high
     /\ n > 0 => /\ FLe(TopH(C, n), BAdd(Hrms(Num(h)), TenPow(28)))
                 /\ FLe(Hrms(Num(h)), BAdd(VMax(Num(h)), TenPow(28)))
     /\ n >= 3 => FLe(TopH(C, n), Hs(C)) /\ FLe(Hs(C), VMax(Num(h)))
     /\ \A k \in 0..(2 * n) : LET f == FracCount(n, FRat(k, 2 * n)) IN n > 0 => k \div 2 \in f /\ \A m \in f : 0 <= m /\ m <= n
=============================================================================
