---------------------------- MODULE MInterfere ----------------------------
(***************************************************************************)
(* Requests of a library that keeps nothing between requests: whatever is        *)
(* asked in between, by whatever world (set of arguments), the answer stays that  *)
(* of a process that was asked nothing else.  Histories: one request in between   *)
(* two rounds of all requests; printed once per interposed request and world.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, Worlds, Depth
VARIABLES hist, memo                \* memo: answers given, by request

Answer(k, w) == <<k, w>>            \* a function of the request only
Init == hist = <<>> /\ memo = <<>>
Ask(k, w) == /\ Len(hist) < Depth
             /\ hist' = Append(hist, [k |-> k, w |-> w])
             /\ memo' = Append(memo, Answer(k, w))
Next == \E k \in Kinds, w \in Worlds : Ask(k, w)
vars == <<hist, memo>>
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("SC|" \o ToJson([qs |-> hist]))
Pure == \A i, j \in 1..Len(hist) : hist[i] = hist[j] => memo[i] = memo[j]
Kept == [][SubSeq(memo', 1, Len(memo)) = memo]_vars
=============================================================================
