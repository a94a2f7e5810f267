----------------------------- MODULE GridTrace -----------------------------
(***************************************************************************)
(* Recorded answers of weighted point grids and adjacency grids (C21).     *)
(* "points" gives the points <<x, y, weight>>; coordinates and weights are *)
(* replaced by their ranks among all that occur in points and queries, so  *)
(* that numbers of any width fit (an answer that is none of them is -1).   *)
(* "graph" gives the edges <<from, to>> likewise.                          *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES l, at, P
vars == <<l, at, P>>
E == Trace[l]
SetOf(s) == {s[i] : i \in 1 .. Len(s)}
InR(p, q) == p[1] >= q[1] /\ p[1] <= q[3] /\ p[2] >= q[2] /\ p[2] <= q[4]
Exactly(s, X) == Len(s) = Cardinality(X) /\ SetOf(s) = X
Falling(s) == \A i \in 1 .. Len(s) - 1 : s[i][3] >= s[i + 1][3]
\* the k heaviest: some choice of k points such that no other is heavier than one of them
Heaviest(s, X, k) == /\ Len(s) = (IF k < Cardinality(X) THEN k ELSE Cardinality(X))
                     /\ Cardinality(SetOf(s)) = Len(s) /\ SetOf(s) \subseteq X /\ Falling(s)
                     /\ (s # <<>> => \A p \in X \ SetOf(s) : p[3] <= s[Len(s)][3])
OK == CASE E.op \in {"job", "points", "graph"} -> TRUE
        [] E.op = "size" -> E.res = Cardinality(P)
        [] E.op = "top" -> \A i \in 1 .. Len(E.q) : LET X == TLCEval({p \in P : InR(p, E.q[i])}) IN Exactly(E.res[i], X) /\ Falling(E.res[i])
        [] E.op = "first" -> \A i \in 1 .. Len(E.q) : LET X == TLCEval({p \in P : InR(p, E.q[i])}) IN Heaviest(E.res[i], X, E.k)
        [] E.op = "range3d" -> \A i \in 1 .. Len(E.q) : Exactly(E.res[i], {p \in P : InR(p, E.q[i]) /\ p[3] >= E.q[i][5] /\ p[3] <= E.q[i][6]})
        [] E.op = "count" -> \A i \in 1 .. Len(E.q) : E.res[i] = Cardinality({p \in P : InR(p, E.q[i])})
        [] E.op = "adj" -> \A i \in 1 .. Len(E.q) : E.res[i] = (IF <<E.q[i][1], E.q[i][2]>> \in P THEN 1 ELSE 0)
        [] E.op = "neigh" -> \A i \in 1 .. Len(E.q) : Exactly(E.res[i], {p[2] : p \in {r \in P : r[1] = E.q[i]}})
        [] E.op = "reverse" -> \A i \in 1 .. Len(E.q) : Exactly(E.res[i], {p[1] : p \in {r \in P : r[2] = E.q[i]}})
        [] E.op = "range" -> \A i \in 1 .. Len(E.q) : Exactly(E.res[i], {p \in P : InR(p, E.q[i])})
        \* two grids over the same node set are equal exactly if they have the same edges
        [] E.op = "equal" -> E.res = (IF SetOf(E.other) = P THEN 1 ELSE 0)
        \* coordinates too large for the grid's levels are refused
        [] E.op = "big" -> E.res = "refused"
        [] OTHER -> FALSE
Init == l = 1 /\ at = 1 /\ P = {} /\ ResetRegisters
Next == /\ l <= Len(Trace) /\ Judge(l, OK) /\ l' = l + 1 /\ at' = at
        /\ P' = IF E.op \in {"points", "graph"} THEN SetOf(E.v) ELSE P
Spec == Init /\ [][Next]_vars
=============================================================================
