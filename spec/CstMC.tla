------------------------------- MODULE CstMC --------------------------------
(***************************************************************************)
(* For every text of length <= N over K letters: the suffix tree over      *)
(* strings (nodes are the right-branching substrings and the suffixes)     *)
(* has the accepted certificate, no neighbouring tree has, and every       *)
(* operation of CstBase, which works on intervals, agrees with its         *)
(* definition over strings.                                                *)
(***************************************************************************)
EXTENDS CstBase
CONSTANTS N, KK
VARIABLES t
Init == t = <<0>>
Next == Len(t) <= N /\ \E c \in 1 .. KK : t' = <<c>> \o t
Spec == Init /\ [][Next]_t
\* --- definitions over strings
Subs(x) == {SubSeq(x, a, b) : a \in 1 .. Len(x), b \in 0 .. Len(x)}
OccAt(x, w, q) == q + Len(w) <= Len(x) /\ SubSeq(x, q + 1, q + Len(w)) = w
OccS(x, w) == {q \in 0 .. Len(x) - 1 : OccAt(x, w, q)}
RightExt(x, w) == {x[q + Len(w) + 1] : q \in {p \in OccS(x, w) : p + Len(w) < Len(x)}}
Suffix(x, q) == SubSeq(x, q + 1, Len(x))
DefNodes(x) == {w \in Subs(x) : Cardinality(RightExt(x, w)) >= 2} \cup {Suffix(x, q) : q \in 0 .. Len(x) - 1}
TheSA(x) == CHOOSE f \in [1 .. Len(x) -> 0 .. Len(x) - 1] : IsSA(x, f)
RECURSIVE SortSA(_, _)
SortSA(x, S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a = b \/ SufLess(x, a, b) IN <<m>> \o SortSA(x, S \ {m})
InvOf(sa) == [k \in 1 .. Len(sa) |-> (CHOOSE j \in 1 .. Len(sa) : sa[j] = k - 1) - 1]
LcpOf(x, sa) == [k \in 1 .. Len(x) |-> IF k = 1 THEN 0 ELSE Ext(x, sa[k - 1], sa[k])]
\* rows of the suffix array of the suffixes that start with w
Rows(x, inv, w) == {At(inv, q) : q \in OccS(x, w)}
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* the tree as a sequence: preorder by (l, -r, depth)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a = b \/ Less(a, b) IN <<m>> \o Sorted(S \ {m})
NodeOf(x, inv, w) == LET r == TLCEval(Rows(x, inv, w)) IN <<MinOf(r), MaxOf(r), Len(w)>>
BuildTree(x, inv) == LET q == TLCEval(Sorted({NodeOf(x, inv, w) : w \in DefNodes(x)})) m == Len(q)
                         par == TLCEval([v \in 1 .. m |-> IF v = 1 THEN 0 ELSE MaxOf({u \in 1 .. v - 1 : q[u][1] <= q[v][1] /\ q[v][2] <= q[u][2]})]) IN
  [v \in 1 .. m |-> <<q[v][1], q[v][2], q[v][3], par[v], SelectSeq([i \in 1 .. m |-> i], LAMBDA i : par[i] = v)>>]
Leaves(T, n) == [i \in 1 .. n |-> CHOOSE v \in 1 .. Len(T) : IsLeaf(T, v) /\ L(T, v) = i - 1]
\* neighbouring trees
Insert(k, i, s) == SubSeq(k, 1, i - 1) \o s \o SubSeq(k, i + 1, Len(k))
\* node v is dissolved (its children go to the parent); it stays as a number, but unreachable, so numbers behind it move down
Ren(T, v, k) == [i \in 1 .. Len(k) |-> IF k[i] > v THEN k[i] - 1 ELSE k[i]]
Dissolve(T, v) == LET p == P(T, v) kp == Insert(K(T, p), IndexIn(K(T, p), v), K(T, v)) f(u) == IF u >= v THEN u + 1 ELSE u g(u) == IF u > v THEN u - 1 ELSE u IN
  [u0 \in 1 .. Len(T) - 1 |-> LET u == f(u0) IN <<L(T, u), R(T, u), D(T, u), IF P(T, u) = v THEN g(p) ELSE g(P(T, u)), Ren(T, v, IF u = p THEN kp ELSE K(T, u))>>]
\* children i and i + 1 of v (of at least three) under a new inner node of depth d, numbered last
Join(T, v, i, d) == LET k == K(T, v) m == Len(T) + 1 a == k[i] b == k[i + 1] IN
  [u \in 1 .. m |-> IF u = m THEN <<L(T, a), R(T, b), d, v, <<a, b>>>>
                    ELSE <<L(T, u), R(T, u), D(T, u), IF u \in {a, b} THEN m ELSE P(T, u), IF u = v THEN SubSeq(k, 1, i - 1) \o <<m>> \o SubSeq(k, i + 2, Len(k)) ELSE K(T, u)>>]
Deeper(T, v, d) == [u \in 1 .. Len(T) |-> IF u = v THEN <<L(T, u), R(T, u), d, P(T, u), K(T, u)>> ELSE T[u]]

Inv == LET x == t n == Len(t) IN n >= 2 =>
  LET sa == TLCEval(SortSA(x, 0 .. n - 1)) inv == TLCEval(InvOf(sa)) lcp == TLCEval(LcpOf(x, sa)) T == TLCEval(BuildTree(x, inv)) lf == TLCEval(Leaves(T, n))
      lab == TLCEval([v \in 1 .. Len(T) |-> Label(T, x, sa, v)])
      loc(w) == CHOOSE v \in 1 .. Len(T) : IsPrefix(w, lab[v]) /\ Rows(x, inv, w) = L(T, v) .. R(T, v) IN
  /\ TreeCert(sa, lcp, T, lf)
  /\ {lab[v] : v \in 1 .. Len(T)} = DefNodes(x)
  /\ \A v \in 2 .. Len(T) : ~IsLeaf(T, v) => LET U == TLCEval(Dissolve(T, v)) IN ~TreeCert(sa, lcp, U, Leaves(U, n))
  /\ \A v \in 1 .. Len(T), d \in 0 .. n + 1 : d # D(T, v) => ~TreeCert(sa, lcp, Deeper(T, v, d), lf)
  /\ \A v \in 1 .. Len(T) : Len(K(T, v)) > 2 => \A i \in 1 .. Len(K(T, v)) - 1, d \in 1 .. n : LET U == TLCEval(Join(T, v, i, d)) IN ~TreeCert(sa, lcp, U, lf)
  \* operations
  /\ \A v \in 1 .. Len(T) :
       /\ Rows(x, inv, lab[v]) = L(T, v) .. R(T, v)
       /\ lab[Sl(T, lf, sa, inv, v)] = IF v = 1 THEN <<>> ELSE SubSeq(lab[v], 2, Len(lab[v]))
       /\ \A c \in 1 .. KK : /\ Wl(T, lf, x, sa, inv, v, c) = IF OccS(x, <<c>> \o lab[v]) = {} THEN 1 ELSE loc(<<c>> \o lab[v])
       /\ \A c \in 0 .. KK : Child(T, x, sa, v, c) = LET J == {w \in 1 .. Len(T) : P(T, w) = v /\ IsPrefix(Append(lab[v], c), lab[w])} IN IF J = {} THEN 1 ELSE CHOOSE w \in J : TRUE
       /\ \A w \in 1 .. Len(T) : LET u == lab[Lca(T, v, w)] IN
            /\ IsPrefix(u, lab[v]) /\ IsPrefix(u, lab[w])
            /\ \A z \in DefNodes(x) : IsPrefix(z, lab[v]) /\ IsPrefix(z, lab[w]) => Len(z) <= Len(u)
=============================================================================
