------------------------------ MODULE CstBase -------------------------------
(***************************************************************************)
(* The suffix tree of a text.                                              *)
(*                                                                         *)
(* A tree is given as a sequence T of nodes <<l, r, d, p, k>>: the         *)
(* interval of the suffix array, the string depth, the number of the       *)
(* parent (0 for the root, which is node 1) and the sequence of the        *)
(* numbers of the children from left to right; lf maps rows of the suffix  *)
(* array to leaves.  TreeCert is a linear check that (T, lf) is the suffix *)
(* tree; CstMC.tla compares it with the definition over strings (DefNodes) *)
(* for all small texts, and the operations below (defined on intervals)    *)
(* with their definition over strings.                                     *)
(***************************************************************************)
EXTENDS TextBase

L(T, v) == T[v][1]
R(T, v) == T[v][2]
D(T, v) == T[v][3]
P(T, v) == T[v][4]
K(T, v) == T[v][5]
IsLeaf(T, v) == K(T, v) = <<>>
Pair(T, v) == <<L(T, v), R(T, v)>>
TreeCert(sa, lcp, T, lf) == LET n == Len(sa) IN
  /\ n >= 2 /\ Len(T) > n /\ Len(lf) = n
  /\ Pair(T, 1) = <<0, n - 1>> /\ D(T, 1) = 0 /\ P(T, 1) = 0 /\ ~IsLeaf(T, 1)
  /\ \A i \in 1 .. n : lf[i] \in 1 .. Len(T) /\ Pair(T, lf[i]) = <<i - 1, i - 1>>
  /\ \A v \in 1 .. Len(T) : LET k == K(T, v) IN
       IF k = <<>> THEN L(T, v) = R(T, v) /\ lf[L(T, v) + 1] = v /\ D(T, v) = n - At(sa, L(T, v))
       ELSE /\ Len(k) >= 2
            /\ \A i \in 1 .. Len(k) : k[i] \in 2 .. Len(T) /\ P(T, k[i]) = v /\ D(T, k[i]) > D(T, v)
            /\ L(T, k[1]) = L(T, v) /\ R(T, k[Len(k)]) = R(T, v)
            /\ \A i \in 1 .. Len(k) - 1 : L(T, k[i + 1]) = R(T, k[i]) + 1 /\ At(lcp, L(T, k[i + 1])) = D(T, v)
  /\ \A v \in 2 .. Len(T) : P(T, v) \in 1 .. Len(T) /\ \E i \in 1 .. Len(K(T, P(T, v))) : K(T, P(T, v))[i] = v
\* ---- operations
RECURSIVE UpTo(_, _, _, _), UpToDepth(_, _, _), NodeDepth(_, _)
\* lowest ancestor-or-self of v whose interval holds a..b
UpTo(T, v, a, b) == IF L(T, v) <= a /\ b <= R(T, v) THEN v ELSE UpTo(T, P(T, v), a, b)
UpToDepth(T, v, d) == IF D(T, v) <= d THEN v ELSE UpToDepth(T, P(T, v), d)
NodeDepth(T, v) == IF P(T, v) = 0 THEN 0 ELSE 1 + NodeDepth(T, P(T, v))
Parent(T, v) == IF v = 1 THEN 1 ELSE P(T, v)
IndexIn(k, v) == CHOOSE i \in 1 .. Len(k) : k[i] = v
\* 1 (the root) stands for "there is none", as in the library
Sibling(T, v) == IF v = 1 THEN 1 ELSE LET k == K(T, P(T, v)) i == IndexIn(k, v) IN IF i = Len(k) THEN 1 ELSE k[i + 1]
Lca(T, v, w) == UpTo(T, v, L(T, w), R(T, w))
\* suffix link: drop the first symbol
Sl(T, lf, sa, inv, v) == IF v = 1 THEN 1
                         ELSE UpToDepth(T, lf[PsiAt(sa, inv, L(T, v)) + 1], D(T, v) - 1)
RECURSIVE SlK(_, _, _, _, _, _)
SlK(T, lf, sa, inv, v, i) == IF i = 0 THEN v ELSE SlK(T, lf, sa, inv, Sl(T, lf, sa, inv, v), i - 1)
\* Weiner link: prepend c (not the terminator)
WlRows(t, sa, inv, a, b, c) == {LfAt(sa, inv, i) : i \in {j \in a .. b : BwtAt(t, sa, j) = c}}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Wl(T, lf, t, sa, inv, v, c) == LET S == TLCEval(WlRows(t, sa, inv, L(T, v), R(T, v), c)) IN
  IF S = {} THEN 1 ELSE UpTo(T, lf[MinOf(S) + 1], MinOf(S), MaxOf(S))
EdgeSym(T, t, sa, v, d) == At(t, At(sa, L(T, v)) + d - 1)
Child(T, t, sa, v, c) == LET k == K(T, v) J == {i \in 1 .. Len(k) : EdgeSym(T, t, sa, k[i], D(T, v) + 1) = c} IN
  IF J = {} THEN 1 ELSE k[CHOOSE i \in J : TRUE]
Label(T, t, sa, v) == SubSeq(t, At(sa, L(T, v)) + 1, At(sa, L(T, v)) + D(T, v))
\* depth first traversal: <<node, visit>>, leaves once, inner nodes twice
After(T, v) == LET s == Sibling(T, v) IN IF s # 1 THEN <<s, 1>> ELSE <<Parent(T, v), 2>>
DfsNext(T, x, skip) == LET v == x[1] IN
  IF x[2] = 1 /\ ~IsLeaf(T, v) /\ v \notin skip THEN <<K(T, v)[1], 1>> ELSE After(T, v)
\* the traversal of the subtree of r as a sequence
IsDfs(T, r, q, skip) == /\ Len(q) >= 1 /\ q[1] = <<r, 1>>
                        /\ \A i \in 1 .. Len(q) - 1 : ~(q[i] = <<r, 2>>) /\ q[i + 1] = DfsNext(T, q[i], skip)
                        /\ q[Len(q)] = IF IsLeaf(T, r) THEN <<r, 1>> ELSE <<r, 2>>
RECURSIVE Leftmost(_, _)
Leftmost(T, v) == IF IsLeaf(T, v) THEN v ELSE Leftmost(T, K(T, v)[1])
IsBottomUp(T, q) == /\ Len(q) = Len(T) /\ q[1] = Leftmost(T, 1) /\ q[Len(q)] = 1
                    /\ \A i \in 1 .. Len(q) - 1 : q[i + 1] = LET s == Sibling(T, q[i]) IN IF s # 1 THEN Leftmost(T, s) ELSE P(T, q[i])
\* breadth first: the children of the nodes in the order of the nodes
RECURSIVE IsBfs(_, _, _, _)
IsBfs(T, q, i, j) == IF i > Len(q) THEN j = Len(q)
                     ELSE LET k == K(T, q[i]) IN j + Len(k) <= Len(q) /\ SubSeq(q, j + 1, j + Len(k)) = k /\ IsBfs(T, q, i + 1, j + Len(k))
=============================================================================
