----------------------------- MODULE TreeTrace ------------------------------
(***************************************************************************)
(* Recorded answers of the balanced-parentheses supports and of the        *)
(* level-order tree (C19).  "seq" gives a sequence with its certificate,   *)
(* "tree" a tree by the parents of its nodes in breadth-first order.       *)
(***************************************************************************)
EXTENDS TraceBase, BpBase
VARIABLES l, at, bm
vars == <<l, at, bm>>
E == Trace[l]
C == Trace[at]                      \* the current sequence or tree
N == Len(C.s)
Each(P(_, _)) == Len(E.q) = Len(E.res) /\ \A k \in 1 .. Len(E.q) : P(E.q[k], E.res[k])
\* --- level-order tree: par[v + 1] is the parent of node v (breadth-first numbers), -1 for the root
M == Len(C.par)
TreeOK(par) == /\ Len(par) >= 1 /\ par[1] = -1
               /\ \A v \in 2 .. Len(par) : par[v] \in 0 .. v - 2 /\ par[v] >= par[v - 1]
Kids(v) == SelectSeq([u \in 1 .. M |-> u - 1], LAMBDA u : C.par[u + 1] = v)
\* the sequence: for every node a one followed by a zero per child
Bits == E.bits
BitsOK == /\ Len(Bits) = 2 * M - 1 /\ Cardinality({i \in 1 .. Len(Bits) : Bits[i] = 1}) = M
          /\ \A v \in 0 .. M - 1 : Bits[E.pos[v + 1] + 1] = 1 /\ (v = 0 => E.pos[1] = 0) /\ (v > 0 => E.pos[v + 1] > E.pos[v])
\* first child and number of children follow from the gaps between the ones
KidsFrom(v) == LET end == IF v = M - 1 THEN Len(Bits) ELSE E.pos[v + 2] IN end - E.pos[v + 1] - 1
OK == CASE E.op = "job" -> TRUE
        [] E.op = "seq" -> BpCert(E.s, E.e, E.m, E.p)
        [] E.op = "size" -> E.res = N
        [] E.op = "excess" -> Each(LAMBDA i, r : r = C.e[i + 1])
        [] E.op = "rank" -> Each(LAMBDA i, r : 2 * r = C.e[i + 1] + i + 1)
        [] E.op = "select" -> Each(LAMBDA i, r : r \in 0 .. N - 1 /\ Open(C.s, r) /\ 2 * i = C.e[r + 1] + r + 1)
        [] E.op = "find_close" -> Each(LAMBDA i, r : r = FindClose(C.s, C.m, i))
        [] E.op = "find_open" -> Each(LAMBDA i, r : r = FindOpen(C.s, C.m, i))
        [] E.op = "enclose" -> Each(LAMBDA i, r : r = Enclose(C.s, C.m, C.p, i))
        [] E.op = "preceding" -> Each(LAMBDA i, r : Preceding(C.s, i, r))
        [] E.op = "level_anc" -> Each(LAMBDA i, r : r = Nil(N, LevelAnc(C.p, i[1], i[2])))
        [] E.op = "rmq" -> Each(LAMBDA i, r : IsMinAt(C.e, bm, i[1], i[2], r))
        [] E.op = "rmq_open" -> Each(LAMBDA i, r : IsRmqOpen(C.s, C.m, C.p, i[1], i[2], r))
        \* res: <<rr_enclose, double_enclose>>
        [] E.op = "pairs" -> Each(LAMBDA i, r : /\ RRPre(C.s, C.m, i[1], i[2])
                                                /\ IsRREnclose(C.s, C.m, C.p, i[1], i[2], r[1])
                                                /\ IsDoubleEnclose(C.s, C.m, C.p, i[1], i[2], r[1], r[2]))
        [] E.op = "tree" -> TreeOK(E.par)
        [] E.op = "louds" -> /\ E.nodes = M /\ BitsOK
                             /\ \A v \in 0 .. M - 1 : /\ KidsFrom(v) = E.deg[v + 1] /\ E.leaf[v + 1] = (IF E.deg[v + 1] = 0 THEN 1 ELSE 0)
                                                      /\ E.id[v + 1] = v /\ E.parent[v + 1] = (IF v = 0 THEN 0 ELSE C.par[v + 1])
                             /\ Len(E.kids) = M
                             \* the children, one after another, are the nodes 1 .. m-1 in order, each under its parent
                             /\ \A v \in 0 .. M - 1 : Len(E.kids[v + 1]) = E.deg[v + 1] /\ \A k \in 1 .. E.deg[v + 1] : LET u == E.kids[v + 1][k] IN
                                   /\ u \in 1 .. M - 1 /\ C.par[u + 1] = v
                                   /\ IF k > 1 THEN u = E.kids[v + 1][k - 1] + 1 ELSE u = 1 \/ C.par[u] < v
                                   /\ (k = E.deg[v + 1] => u = M - 1 \/ C.par[u + 2] > v)
                             /\ \A v \in 0 .. M - 1 : E.deg[v + 1] = 0 => \A u \in 1 .. M - 1 : C.par[u + 1] # v
                             /\ E.eq = 1
        [] OTHER -> FALSE
Init == l = 1 /\ at = 1 /\ bm = <<>> /\ ResetRegisters
Next == /\ l <= Len(Trace) /\ Judge(l, OK) /\ l' = l + 1
        /\ at' = IF E.op \in {"seq", "tree"} THEN l ELSE at
        /\ bm' = IF E.op = "seq" THEN BlockMin(E.e) ELSE bm
Spec == Init /\ [][Next]_vars
=============================================================================
