------------------------------ MODULE RmqTrace ------------------------------
(***************************************************************************)
(* Recorded answers of the range-minimum and range-maximum structures      *)
(* (C20).  "array" gives the ranks of the elements of the sequence, so     *)
(* that elements of any width fit; "rmq" a list of intervals and the       *)
(* positions given for them: the first smallest (largest) element.         *)
(***************************************************************************)
EXTENDS TraceBase, BpBase
VARIABLES l, at, lo, hi
vars == <<l, at, lo, hi>>
E == Trace[l]
V == Trace[at].v
Neg(x) == [i \in 1 .. Len(x) |-> -x[i]]
OK == CASE E.op = "job" -> TRUE
        [] E.op = "array" -> TRUE
        [] E.op = "size" -> E.res = Len(V)
        [] E.op = "rmq" ->
             /\ Len(E.q) = Len(E.res)
             /\ IF E.max = 0 THEN \A k \in 1 .. Len(E.q) : IsLeftMinAt(V, lo, E.q[k][1], E.q[k][2], E.res[k])
                ELSE LET W == TLCEval(Neg(V)) IN \A k \in 1 .. Len(E.q) : IsLeftMinAt(W, hi, E.q[k][1], E.q[k][2], E.res[k])
        [] OTHER -> FALSE
Init == l = 1 /\ at = 1 /\ lo = <<>> /\ hi = <<>> /\ ResetRegisters
Next == /\ l <= Len(Trace) /\ Judge(l, OK) /\ l' = l + 1
        /\ at' = IF E.op = "array" THEN l ELSE at
        /\ lo' = IF E.op = "array" THEN BlockMin(E.v) ELSE lo
        /\ hi' = IF E.op = "array" THEN BlockMin(Neg(E.v)) ELSE hi
Spec == Init /\ [][Next]_vars
=============================================================================
