------------------------------ MODULE MSynth ------------------------------
(***************************************************************************)
(* Histories of syntheses and of the random stream they share: seeded           *)
(* requests restart the stream, others continue it, and the user may restart     *)
(* it or draw from it.  A result is named by what determines it: the spectrum    *)
(* and the place in the stream (restart seed, draws made since).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Spectra, Seeds, Routes, Depth
VARIABLES stream, hist, made        \* stream = <<seed, draws>>, draws = the requests since the restart

None == -1
Init == stream = <<"unknown", <<>>>> /\ hist = <<>> /\ made = {}
Synth(s, seed, route) ==
  LET place == IF seed = None THEN stream ELSE <<ToString(seed), <<>>>>
  IN /\ made' = made \cup {[s |-> s, seed |-> seed, at |-> Len(hist), result |-> <<s, place>>]}
     /\ stream' = <<place[1], Append(place[2], s)>>
     /\ hist' = Append(hist, [op |-> route, s |-> s, seed |-> seed])
UserSeed == stream' = <<"user", <<>>>> /\ hist' = Append(hist, [op |-> "seed", s |-> 0, seed |-> 5]) /\ UNCHANGED made
UserDraw == stream' = <<stream[1], Append(stream[2], 0)>> /\ hist' = Append(hist, [op |-> "draw", s |-> 0, seed |-> None]) /\ UNCHANGED made
Next == /\ Len(hist) < Depth
        /\ \/ \E s \in Spectra, seed \in Seeds, r \in Routes : (r # "method" \/ seed = None) /\ Synth(s, seed, r)
           \/ UserSeed \/ UserDraw
vars == <<stream, hist, made>>
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = Depth => PrintT("SC|" \o ToJson([qs |-> hist]))

(* the same seed gives the same series, in any history *)
SameSeed == \A a, b \in made : a.s = b.s /\ a.seed = b.seed /\ a.seed # None => a.result = b.result
(* different seeds give different series *)
OtherSeed == \A a, b \in made : a.seed # b.seed /\ a.seed # None /\ b.seed # None => a.result # b.result
(* without a seed the phases are fresh: another series than all since the last restart, and than seeded ones *)
RestartsBetween(a, b) == Cardinality({i \in (a.at + 1)..b.at : hist[i + 1].op = "seed" \/ hist[i + 1].seed > None})
Fresh == \A a, b \in made : a.at < b.at /\ b.seed = None /\ RestartsBetween(a, b) = 0 => a.result # b.result
=============================================================================
