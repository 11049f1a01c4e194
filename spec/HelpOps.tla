------------------------------ MODULE HelpOps ------------------------------
(***************************************************************************)
(* The helpers by which all requests take in their arrays (C27): bringing      *)
(* numbers, lists and arrays into one form, recognising vectors and uniform     *)
(* axes, and finding the nearest of a set of values.                           *)
(***************************************************************************)
EXTENDS Guards

(* A single number is an array of one value. *)
InShape(a, d) == IF a.single THEN <<1>> ELSE d.sh
OutSize(sh) == IF \E i \in 1..Len(sh) : sh[i] = 0 THEN <<0, 0>> ELSE IF Len(sh) = 1 THEN <<sh[1], 0>> ELSE sh
OutShape(sh) == IF Len(sh) = 2 /\ OutSize(sh)[2] = 1 THEN <<sh[1]>> ELSE sh
SameNumbers(x, y) == x.v = y.v /\ x.re = y.re /\ x.im = y.im

ArrayFails(e, D(_)) ==
  IF ~e.ok THEN Rejected("C27:")
  ELSE Fail(SameNumbers(D(e.r.v), D(e.a.x)), "C27:same-values-in-order")
       \cup Fail(D(e.r.v).sh = InShape(e.a, D(e.a.x)), "C27:shape")
VectorFails(e, D(_)) ==
  IF ~e.ok THEN Rejected("C27:")
  ELSE LET sh == InShape(e.a, D(e.a.x))
       IN Fail(SameNumbers(D(e.r.v), D(e.a.x)), "C27:same-values-in-order")
          \cup Fail(D(e.r.v).sh = OutShape(sh), "C27:columns-become-vectors")
          \cup Fail(e.r.size = OutSize(sh), "C27:size-is-that-of-the-input")
OneDFails(e, D(_)) ==
  IF ~e.ok THEN Rejected("C27:")
  ELSE LET sh == D(e.a.x).sh
       IN Fail(e.r.b = (Len(sh) = 1 /\ sh[1] > 0), "C27:one-dimension-recognised")
UniformFails(e, D(_)) ==
  LET u == UniformAxis(D(e.a.x))
  IN IF ~e.ok THEN Rejected("C27:")
     ELSE IF u = "either" THEN {}
     ELSE Fail(e.r.b = (u = "yes"), "C27:uniform-axis-recognised")

(* Positions a value may be said to be nearest at: nothing is closer by more than the rounding of the distances.     *)
Distance(v, i, x) == FAbs(BSub(v[i], x))
Nearest(v, x) ==
  LET d == TLCEval([i \in 1..Len(v) |-> Distance(v, i, x)])
      m == TLCEval(FoldLeft(LAMBDA a, b : FMin(a, b), d[1], d))
      r == BAdd(Rel(FMax(FAbs(x), VMaxAbs(v)), 15), TenPow(31))
  IN {i \in 1..Len(v) : FLe(d[i], BAdd(m, r)) /\ ~\E j \in 1..(i - 1) : v[j] = v[i]}   \* of equal values the first
NearestFails(e, D(_)) ==
  IF ~e.ok THEN Rejected("C27:") ELSE Fail(e.r.i + 1 \in Nearest(V(D, e.a.x), e.a.v), "C27:nothing-is-closer")
=============================================================================
