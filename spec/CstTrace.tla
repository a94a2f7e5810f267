------------------------------ MODULE CstTrace ------------------------------
(***************************************************************************)
(* Traces of compressed suffix trees (C18).  Every text comes with its     *)
(* certified suffix array, LCP array and suffix tree; nodes are named by   *)
(* their suffix array interval in the answers of the library.              *)
(***************************************************************************)
EXTENDS TraceBase, CstBase
VARIABLES l, cur, tree
vars == <<l, cur, tree>>
C == Trace[cur]
T == Trace[tree].nodes
LF == Trace[tree].leaves
N == Len(C.t)
Root == <<0, N - 1>>
PairsOf(k) == [i \in 1 .. Len(k) |-> Pair(T, k[i])]
Shape(v) == LET k == TLCEval(PairsOf(K(T, v))) leaf == k = <<>> IN
  <<L(T, v), R(T, v), IF leaf THEN 1 ELSE 0, R(T, v) - L(T, v) + 1, Len(k), IF leaf THEN At(C.sa, L(T, v)) ELSE -1,
    Pair(T, Parent(T, v)), k, Append(k, Root), Pair(T, Sibling(T, v)), <<L(T, v), L(T, v)>>, <<R(T, v), R(T, v)>>, Pair(T, v), NodeDepth(T, v)>>
LabelOf(v, ds, full) ==
  <<D(T, v), [i \in 1 .. Len(ds) |-> EdgeSym(T, C.t, C.sa, v, ds[i])], IF full THEN Label(T, C.t, C.sa, v) ELSE <<>>, Pair(T, Sl(T, LF, C.sa, C.inv, v))>>
\* the position reported by child: some suffix of the child, d symbols dropped
PosOK(v, w, pos) == \E i \in L(T, w) .. R(T, w) : pos = At(C.inv, At(C.sa, i) + D(T, v))
Legal(e) ==
  CASE e.op = "shape" -> e.res = Shape(e.v)
    [] e.op = "label" -> e.res = LabelOf(e.v, e.ds, e.full = 1)
    [] e.op = "child" -> LET w == Child(T, C.t, C.sa, e.v, e.c) IN
                         /\ SubSeq(e.res, 1, 2) = Pair(T, w)
                         /\ (w # 1 /\ Len(e.res) = 3) => PosOK(e.v, w, e.res[3])
    [] e.op = "wl" -> e.res = Pair(T, Wl(T, LF, C.t, C.sa, C.inv, e.v, e.c))
    [] e.op = "lca" -> e.res = Pair(T, Lca(T, e.v, e.w))
    [] e.op = "slk" -> e.res = Pair(T, SlK(T, LF, C.sa, C.inv, e.v, e.i))
    [] e.op = "anc" -> e.res = IF L(T, e.v) <= L(T, e.w) /\ R(T, e.w) <= R(T, e.v) THEN 1 ELSE 0
    [] e.op = "leaf" -> e.res = <<e.i, e.i>>
    [] e.op = "nodes" -> e.res = <<Len(T), N, Root, IF N = 0 THEN 1 ELSE 0>>
    [] e.op = "lcp" -> e.res = C.lcp
    [] e.op = "ids" -> LET S == {e.res[v][1] : v \in 1 .. Len(e.res)} IN
                       /\ Len(e.res) = Len(T) /\ S = 0 .. Len(T) - 1
                       /\ \A v \in 1 .. Len(T) : e.res[v][2] = Pair(T, v)
    [] e.op = "dfs" -> IsDfs(T, e.v, e.res, {e.skip[i] : i \in 1 .. Len(e.skip)})
    [] e.op = "bottomup" -> IsBottomUp(T, e.res)
    [] e.op = "bfs" -> Len(e.res) >= 1 /\ e.res[1] = 1 /\ IsBfs(T, e.res, 1, 1)
    [] OTHER -> FALSE
TextOK(e) == TextWF(e.tab, e.t) /\ SACert(e.t, e.sa, e.inv) /\ LCPCert(e.t, e.sa, e.inv, e.lcp)
Init == l = 1 /\ cur = 0 /\ tree = 0 /\ ResetRegisters
Job == Trace[l].op = "job" /\ cur' = 0 /\ tree' = 0
Text == Trace[l].op = "text" /\ Judge(l, TextOK(Trace[l])) /\ cur' = l /\ tree' = 0
Tree == Trace[l].op = "tree" /\ Judge(l, cur # 0 /\ TreeCert(C.sa, C.lcp, Trace[l].nodes, Trace[l].leaves)) /\ tree' = l /\ UNCHANGED cur
Query == Trace[l].op \notin {"job", "text", "tree"} /\ Judge(l, tree # 0 /\ Legal(Trace[l])) /\ UNCHANGED <<cur, tree>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Job \/ Text \/ Tree \/ Query)
Spec == Init /\ [][Next]_vars
=============================================================================
