-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: every recorded session of the real code must be a behaviour   *)
(* of Toolbox.  One initial state per session; each step consumes one event.   *)
(* A violated clause is printed as one line  FAIL|session|event|{clauses}.      *)
(***************************************************************************)
EXTENDS Toolbox, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, heap
vars == <<s, l, heap>>

Event == Sessions[s].ev[l]
Data(i) == Sessions[s].d[i]

Init == /\ s \in 1..Len(Sessions)
        /\ l = 1
        /\ heap = EmptyHeap
Next == /\ l <= Len(Sessions[s].ev)
        /\ LET bad == StepFails(Event, heap, Data)
           IN bad = {} \/ PrintT("FAIL|" \o ToString(s) \o "|" \o ToString(l) \o "|" \o ToString(bad))
        /\ heap' = StepHeap(Event, heap, Data)
        /\ l' = l + 1
        /\ s' = s
Done == /\ l = Len(Sessions[s].ev) + 1
        /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* every session is consumed to its end *)
View == <<s, l>>
=============================================================================
