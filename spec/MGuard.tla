------------------------------ MODULE MGuard ------------------------------
(***************************************************************************)
(* Requests with well- and ill-formed arguments: every public function of an    *)
(* axis and values x form of the axis x form of the values x defect of the axis.  *)
(* Defects are applied one after the other (each is an action), so that also     *)
(* combinations are reached.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Functions, Shapes, Defects, Both, Sizes
VARIABLES fn, n, sa, sb, defect

Init == fn \in Functions /\ n \in Sizes /\ sa = "row" /\ sb = "row" /\ defect = "none"
ShapeA == sa = "row" /\ (Both \/ defect = "none") /\ sa' \in Shapes \ {"row"} /\ UNCHANGED <<fn, n, sb, defect>>
ShapeB == sb = "row" /\ (Both \/ defect = "none") /\ sb' \in Shapes \ {"row"} /\ UNCHANGED <<fn, n, sa, defect>>
Spoil == defect = "none" /\ (Both \/ (sa = "row" /\ sb = "row")) /\ defect' \in Defects \ {"none"} /\ UNCHANGED <<fn, n, sa, sb>>
Next == ShapeA \/ ShapeB \/ Spoil
vars == <<fn, n, sa, sb, defect>>
Spec == Init /\ [][Next]_vars
Emit == PrintT("SC|" \o ToJson([fn |-> fn, n |-> n, sa |-> sa, sb |-> sb, defect |-> defect]))
(* a repair by a second defect is not possible: defects and shapes are only added *)
Monotone == [][(sa # "row" => sa' = sa) /\ (sb # "row" => sb' = sb) /\ (defect # "none" => defect' = defect)]_vars
=============================================================================
