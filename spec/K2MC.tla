-------------------------------- MODULE K2MC --------------------------------
(***************************************************************************)
(* Mechanism models of the k^2-treap and the k^2-tree (C21), checked for   *)
(* all small point sets and graphs.                                        *)
(* Treap: level by level every cell stores its heaviest remaining point    *)
(* relative to the cell, its weight as a difference to the parent's, and a *)
(* bit per sub-cell; a child is found by rank.  Decoded: the nodes reached *)
(* from the root hold exactly the points, in heap order.  TopK, Range3d,   *)
(* Count: the prioritised traversals return exactly the points asked for,  *)
(* TopK by falling weight.                                                 *)
(* Tree: bits of the non-empty cells breadth first, the last level apart;  *)
(* Adjacent, Neighbours, Range: the descents find exactly the edges.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, G, MaxPts, Ws, Sizes, MaxEdges
VARIABLES what, P, size
vars == <<what, P, size>>
RECURSIVE Pow(_)
Pow(m) == IF m = 0 THEN 1 ELSE K * Pow(m - 1)
MaxOf(X) == CHOOSE x \in X : \A y \in X : y <= x
SortBy(X, Key(_)) == [i \in 1 .. Cardinality(X) |-> CHOOSE x \in X : Cardinality({y \in X : Key(y) < Key(x)}) = i - 1]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
RECURSIVE Inter(_, _, _)               \* the order of the cells of a level: digits of x and y interleaved
Inter(x, y, m) == IF m = 0 THEN 0 ELSE Inter(x \div K, y \div K, m - 1) * K * K + (x % K) * K + (y % K)
RankB(b, i) == Cardinality({j \in 1 .. i : b[j] = 1})          \* ones in b[0..i-1]
\* ------------------------------------------------------------- treap
Height(X) == CHOOSE h \in 0 .. 10 : (\A p \in X : p[1] < Pow(h) /\ p[2] < Pow(h)) /\ (h = 0 \/ \E p \in X : p[1] >= Pow(h - 1) \/ p[2] >= Pow(h - 1))
Beats(a, b) == a[3] > b[3] \/ (a[3] = b[3] /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])))
Best(X) == CHOOSE p \in X : \A q \in X \ {p} : Beats(p, q)
Cell(p, l) == <<p[1] \div Pow(l), p[2] \div Pow(l)>>
RECURSIVE Levels(_, _, _)              \* sequence over the levels t, t-1, .. 0 of the node sequences
Levels(X, l, t) ==
  LET cells == {Cell(p, l) : p \in X}
      Key(c) == Inter(c[1], c[2], t - l)
      ord == SortBy(cells, Key)
      best == {Best({p \in X : Cell(p, l) = c}) : c \in cells}
      rest == X \ best
      nodes == [i \in 1 .. Len(ord) |-> LET b == CHOOSE p \in best : Cell(p, l) = ord[i] IN
                  [pt |-> b, cell |-> ord[i],
                   bits |-> IF l = 0 THEN <<>> ELSE [d \in 1 .. K * K |-> IF \E p \in rest : Cell(p, l - 1) = <<ord[i][1] * K + (d - 1) \div K, ord[i][2] * K + ((d - 1) % K)>> THEN 1 ELSE 0]]]
  IN <<nodes>> \o (IF l = 0 THEN <<>> ELSE Levels(rest, l - 1, t))
Build(X) ==
  LET t == Height(X)
      lv == TLCEval(Levels(X, t, t))
      all == Flat(lv)
      bp == Flat([i \in 1 .. Len(all) |-> all[i].bits])
      parent(i) == CHOOSE j \in 1 .. Len(all) : RankB(bp, (j - 1) * K * K) < i - 1 /\ i - 1 <= RankB(bp, j * K * K) /\ j * K * K <= Len(bp)
      start == [l \in 0 .. t |-> Cardinality({i \in 1 .. Len(all) : \E m \in 1 .. t - l : \E q \in 1 .. Len(lv[m]) : lv[m][q] = all[i]})]
  IN [t |-> t, bp |-> bp, n |-> Len(all),
      val |-> [i \in 1 .. Len(all) |-> IF i = 1 THEN all[1].pt[3] ELSE all[parent(i)].pt[3] - all[i].pt[3]],
      coord |-> [l \in 0 .. t - 1 |-> [q \in 1 .. Len(lv[t - l]) |-> <<lv[t - l][q].pt[1] % Pow(l + 1), lv[t - l][q].pt[2] % Pow(l + 1)>>]],
      idx |-> start]
Root(T) == [t |-> T.t, x |-> 0, y |-> 0, idx |-> 0, w |-> T.val[1],
            px |-> IF T.t = 0 THEN 0 ELSE T.coord[T.t - 1][1][1], py |-> IF T.t = 0 THEN 0 ELSE T.coord[T.t - 1][1][2]]
Kids(T, v) ==
  IF v.idx >= Len(T.bp) THEN {}
  ELSE {LET d == e - 1
            r == RankB(T.bp, v.idx + d) + 1
            x == v.x + (d \div K) * Pow(v.t - 1)
            y == v.y + (d % K) * Pow(v.t - 1)
            c == IF v.t > 1 THEN T.coord[v.t - 2][r - T.idx[v.t - 1] + 1] ELSE <<0, 0>>
        IN [t |-> v.t - 1, x |-> x, y |-> y, idx |-> r * K * K, w |-> v.w - T.val[r + 1], px |-> x + c[1], py |-> y + c[2]]
        : e \in {q \in 1 .. K * K : T.bp[v.idx + q] = 1}}
RECURSIVE Reach(_, _)
Reach(T, F) == IF F = {} THEN {} ELSE F \cup Reach(T, UNION {Kids(T, v) : v \in F})
Tr == TLCEval(Build(P))
Treap == what = "treap" /\ P # {}
Decoded == ~Treap \/ LET T == Tr N == TLCEval(Reach(T, {Root(T)})) IN
             /\ {<<v.px, v.py, v.w>> : v \in N} = P /\ Cardinality(N) = Cardinality(P) /\ T.n = Cardinality(P)
             /\ \A i \in 1 .. T.n : T.val[i] >= 0
             /\ \A v \in N : \A c \in Kids(T, v) : Beats(<<v.px, v.py, v.w>>, <<c.px, c.py, c.w>>)
Covers(q, v) == LET d == Pow(v.t) - 1 IN q[1] <= v.x /\ q[3] >= v.x + d /\ q[2] <= v.y /\ q[4] >= v.y + d
Meets(q, v) == LET d == Pow(v.t) - 1 IN q[1] <= v.x + d /\ q[3] >= v.x /\ q[2] <= v.y + d /\ q[4] >= v.y
InR(q, p) == p[1] >= q[1] /\ p[1] <= q[3] /\ p[2] >= q[2] /\ p[2] <= q[4]
Pt(v) == <<v.px, v.py, v.w>>
First(F) == CHOOSE e \in F : \A f \in F \ {e} : Beats(Pt(e[1]), Pt(f[1])) \/ (Pt(e[1]) = Pt(f[1]) /\ e[2])
RECURSIVE Run(_, _, _, _)              \* F: queue of <<node, known to be covered>>; a, b: weights wanted
Run(T, F, q, ab) ==
  IF F = {} THEN <<>>
  ELSE LET e == First(F) v == e[1] R == F \ {e}
           new(flag) == {<<c, flag>> : c \in {d \in Kids(T, v) : d.w >= ab[1]}}
           say(x) == IF v.w <= ab[2] THEN <<Pt(v)>> \o x ELSE x
       IN IF e[2] THEN say(Run(T, R \cup new(TRUE), q, ab))
          ELSE IF Covers(q, v) THEN Run(T, R \cup {<<v, TRUE>>}, q, ab)
          ELSE IF ~Meets(q, v) THEN Run(T, R, q, ab)
          ELSE IF InR(q, Pt(v)) THEN say(Run(T, R \cup new(FALSE), q, ab)) ELSE Run(T, R \cup new(FALSE), q, ab)
RECURSIVE CountIn(_, _, _)
CountIn(T, v, q) == IF Covers(q, v) THEN Cardinality(Reach(T, {v}))
                    ELSE IF Meets(q, v) THEN (IF InR(q, Pt(v)) THEN 1 ELSE 0) + (LET S == Kids(T, v) IN IF S = {} THEN 0 ELSE LET RECURSIVE Sum(_) Sum(X) == IF X = {} THEN 0 ELSE LET c == CHOOSE c \in X : TRUE IN CountIn(T, c, q) + Sum(X \ {c}) IN Sum(S))
                    ELSE 0
Rects == {q \in (0 .. G - 1) \X (0 .. G - 1) \X (0 .. G - 1) \X (0 .. G - 1) : q[1] <= q[3] /\ q[2] <= q[4]}
Fallen(s) == \A i \in 1 .. Len(s) - 1 : s[i][3] >= s[i + 1][3]
SetOf(s) == {s[i] : i \in 1 .. Len(s)}
WMax == MaxOf(Ws)
Queried == ~Treap \/ LET T == Tr IN
  \A q \in Rects :
    LET r == TLCEval(Run(T, {<<Root(T), FALSE>>}, q, <<0, WMax>>)) I == {p \in P : InR(q, p)} IN
    /\ SetOf(r) = I /\ Len(r) = Cardinality(I) /\ Fallen(r)
    /\ CountIn(T, Root(T), q) = Cardinality(I)
    /\ \A a, b \in Ws : a <= b =>
         LET s == TLCEval(Run(T, IF Root(T).w >= a THEN {<<Root(T), FALSE>>} ELSE {}, q, <<a, b>>)) J == {p \in I : p[3] >= a /\ p[3] <= b} IN
         SetOf(s) = J /\ Len(s) = Cardinality(J)
\* ------------------------------------------------------------- tree
H == LET h == CHOOSE h \in 0 .. 10 : Pow(h) >= size /\ (h = 0 \/ Pow(h - 1) < size) IN IF h = 0 THEN 1 ELSE h
CellsAt(l) == LET C == {Cell(p, l) : p \in P} Key(c) == Inter(c[1], c[2], H - l) IN SortBy(C, Key)
BitsOf(c, l) == [d \in 1 .. K * K |-> IF \E p \in P : Cell(p, l - 1) = <<c[1] * K + (d - 1) \div K, c[2] * K + ((d - 1) % K)>> THEN 1 ELSE 0]
LevelBits(l) == LET s == CellsAt(l) IN Flat([i \in 1 .. Len(s) |-> BitsOf(s[i], l)])
TB == Flat([m \in 1 .. H - 1 |-> LevelBits(H - m + 1)])
LB == LevelBits(1)
RECURSIVE Walk(_, _, _, _, _, _, _)    \* cells of size n below position z that meet rows a..b and columns c..d (relative)
Walk(T, L, n, rc, z, off, top) ==
  IF ~top /\ z >= Len(T) THEN (IF L[z - Len(T) + 1] = 1 THEN {off} ELSE {})
  ELSE IF top \/ T[z + 1] = 1
  THEN LET y == (IF top THEN 0 ELSE RankB(T, z + 1)) * K * K IN
       UNION {UNION {LET a == IF i = rc[1] \div n THEN rc[1] % n ELSE 0
                         b == IF i = rc[2] \div n THEN rc[2] % n ELSE n - 1
                         c == IF j = rc[3] \div n THEN rc[3] % n ELSE 0
                         d == IF j = rc[4] \div n THEN rc[4] % n ELSE n - 1
                     IN Walk(T, L, n \div K, <<a, b, c, d>>, y + K * i + j, <<off[1] + n * i, off[2] + n * j>>, FALSE)
                     : j \in rc[3] \div n .. rc[4] \div n} : i \in rc[1] \div n .. rc[2] \div n}
  ELSE {}
Ids == 0 .. size - 1
Graph == ~(what = "tree" /\ P # {}) \/
         LET T == TLCEval(TB) L == TLCEval(LB) n == Pow(H - 1) IN
         \A a, b, c, d \in Ids : a <= b /\ c <= d => Walk(T, L, n, <<a, b, c, d>>, 0, <<0, 0>>, TRUE) = {p \in P : p[1] >= a /\ p[1] <= b /\ p[2] >= c /\ p[2] <= d}
RECURSIVE Upto(_, _)
Upto(X, m) == IF m = 0 THEN {{}} ELSE LET Y == Upto(X, m - 1) IN Y \cup {S \cup {x} : S \in Y, x \in X}
Xy(p) == <<p[1], p[2]>>
Init == what = "start" /\ size = 0 /\ P = {}
Next == /\ what = "start"
        /\ \/ /\ what' = "treap" /\ size' = 0
              /\ P' \in {S \in Upto((0 .. G - 1) \X (0 .. G - 1) \X Ws, MaxPts) : Cardinality({Xy(p) : p \in S}) = Cardinality(S)}
           \/ /\ what' = "tree" /\ size' \in Sizes
              /\ P' \in Upto((0 .. size' - 1) \X (0 .. size' - 1), MaxEdges)
Spec == Init /\ [][Next]_vars
=============================================================================
