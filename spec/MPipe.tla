-------------------------------- MODULE MPipe --------------------------------
(***************************************************************************)
(* Chains of requests over objects that requests return.  An object has a kind, *)
(* the object it was made from (0: by the user) and a version, which only a       *)
(* request on that very object raises.                                            *)
(*   start   what the user begins with: a Series, a Spectrum (with or without      *)
(*           directional data), a parametric                                       *)
(*           spectrum object, a synthesised Series, a decomposition (two Series)     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Starts, Depth, MaxObjects
VARIABLES start, objs, hist

Kinds == {"series", "spectrum", "waves"}
New(k, i) == [kind |-> k, from |-> i, ver |-> 0]
First(s) == CASE s \in {"series", "synth"} -> <<New("series", 0)>>
              [] s \in {"spectrum", "jonswap", "directional"} -> <<New("spectrum", 0)>>
              [] s = "zs" -> <<New("series", 0), New("series", 0)>>
Gives(op) == CASE op \in {"band", "create"} -> "series" [] op \in {"raw", "welch"} -> "spectrum" [] op = "table" -> "waves"
Derive == [series |-> {"band", "raw", "welch", "table"}, spectrum |-> {"create"}, waves |-> {}]
Change == [series |-> {"up", "sort"}, spectrum |-> {"Hm0", "smm10"}, waves |-> {"sort"}]
Ask == [series |-> {"Hs"}, spectrum |-> {"plot"}, waves |-> {"Hs"}]

Init == start \in Starts /\ objs = First(start) /\ hist = <<>>
Made(i) == \E op \in Derive[objs[i].kind] : /\ Len(objs) < MaxObjects
                                            /\ objs' = Append(objs, New(Gives(op), i))
                                            /\ hist' = Append(hist, [op |-> op, i |-> i])
Changed(i) == \E op \in Change[objs[i].kind] : objs' = [objs EXCEPT ![i].ver = @ + 1] /\ hist' = Append(hist, [op |-> op, i |-> i])
Asked(i) == \E op \in Ask[objs[i].kind] : objs' = objs /\ hist' = Append(hist, [op |-> op, i |-> i])
Next == /\ Len(hist) < Depth
        /\ start' = start
        /\ \E i \in 1..Len(objs) : Made(i) \/ Changed(i) \/ Asked(i)
vars == <<start, objs, hist>>
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("SC|" \o ToJson([start |-> start, qs |-> hist]))

Typed == \A i \in 1..Len(objs) : /\ objs[i].kind \in Kinds
                                 /\ objs[i].from \in 0..(i - 1)
                                 /\ objs[i].from > 0 => \E op \in Derive[objs[objs[i].from].kind] : Gives(op) = objs[i].kind
(* what the user did to an object is all that happened to it *)
Own == \A i \in 1..Len(objs) : objs[i].ver = Cardinality({k \in 1..Len(hist) : hist[k].i = i /\ hist[k].op \in Change[objs[i].kind]})
(* an object comes into being untouched, and others stay as they are *)
Apart == [][\A i \in 1..Len(objs) : objs'[i] = objs[i] \/ hist'[Len(hist')].i = i]_vars
Fresh == [][Len(objs') > Len(objs) => objs'[Len(objs')].ver = 0]_vars
=============================================================================
