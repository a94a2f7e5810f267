------------------------------ MODULE WaveMC ------------------------------
(***************************************************************************)
(* Design models of the wavelet structures, checked exhaustively over all  *)
(* sequences of length <= N over 0 .. 2^L-1, grown symbol by symbol:       *)
(*   - the level-wise wavelet tree (wt_int),                               *)
(*   - the wavelet matrix (wm_int),                                        *)
(*   - prefix-code wavelet trees (wt_pc) for every code tree over four     *)
(*     symbols, with the bfs numbering of the nodes,                       *)
(*   - the run-length structure (wt_rlmn),                                 *)
(*   - the constant-time certificates the trace specification relies on.   *)
(***************************************************************************)
EXTENDS SeqDef, TLC
CONSTANTS N, L
VARIABLE s
Sigma == 0 .. 2 ^ L - 1
Init == s = <<>>
Append1(c) == Len(s) < N /\ s' = Append(s, c)
Next == \E c \in Sigma : Append1(c)
Spec == Init /\ [][Next]_s
n == Len(s)

Bit(c, k) == (c \div 2 ^ (L - 1 - k)) % 2            \* k-th bit from the top
Top(c, k) == c \div 2 ^ (L - k)                       \* the k highest bits
Ones(b, i) == Cardinality({x \in 1 .. i : b[x] = 1})
Zeros(b, i) == i - Ones(b, i)
SelectBit(b, v, k) == CHOOSE x \in 1 .. Len(b) : b[x] = v /\ Cardinality({y \in 1 .. x : b[y] = v}) = k
RECURSIVE FilterBit(_, _, _)
FilterBit(q, k, v) == IF q = <<>> THEN <<>> ELSE (IF Bit(Head(q), k) = v THEN <<Head(q)>> ELSE <<>>) \o FilterBit(Tail(q), k, v)

\* ---- wavelet matrix: stable partition of the whole level
RECURSIVE MLevel(_)
MLevel(k) == IF k = 0 THEN s ELSE FilterBit(MLevel(k - 1), k - 1, 0) \o FilterBit(MLevel(k - 1), k - 1, 1)
MBits(k) == [x \in 1 .. n |-> Bit(MLevel(k)[x], k)]
MZeros(k) == Zeros(MBits(k), n)
MStep(k, i, v) == IF v = 0 THEN Zeros(MBits(k), i) ELSE MZeros(k) + Ones(MBits(k), i)
RECURSIVE MAccess(_, _, _)
MAccess(k, i, c) == IF k = L THEN c ELSE LET v == MBits(k)[i + 1] IN MAccess(k + 1, MStep(k, i, v), 2 * c + v)
RECURSIVE MRank(_, _, _, _)
MRank(k, b, i, c) == IF k = L THEN i - b ELSE MRank(k + 1, MStep(k, b, Bit(c, k)), MStep(k, i, Bit(c, k)), c)
RECURSIVE MStart(_, _, _)
MStart(k, b, c) == IF k = L THEN b ELSE MStart(k + 1, MStep(k, b, Bit(c, k)), c)
RECURSIVE MUp(_, _, _)
MUp(k, p, c) == IF k = 0 THEN p
                ELSE MUp(k - 1, IF Bit(c, k - 1) = 0 THEN SelectBit(MBits(k - 1), 0, p + 1) - 1
                                ELSE SelectBit(MBits(k - 1), 1, p - MZeros(k - 1) + 1) - 1, c)
Matrix == /\ \A i \in 0 .. n - 1 : MAccess(0, i, 0) = s[i + 1]
          /\ \A c \in Sigma : \A i \in 0 .. n : MRank(0, 0, i, c) = RankDef(s, i, c)
          /\ \A c \in Sigma : \A k \in 1 .. RankDef(s, n, c) :
               LET p == MUp(L, MStart(0, 0, c) + k - 1, c) IN s[p + 1] = c /\ RankDef(s, p, c) = k - 1

\* ---- level-wise tree: level k is s stably sorted by its k highest bits, a node is an interval of it
TLevel(k) == LET cells == [t \in 0 .. 2 ^ k - 1 |-> SelectSeq(s, LAMBDA c : Top(c, k) = t)]
                 Cat[t \in 0 .. 2 ^ k] == IF t = 0 THEN <<>> ELSE Cat[t - 1] \o cells[t - 1]
             IN Cat[2 ^ k]
TBits(k) == [x \in 1 .. n |-> Bit(TLevel(k)[x], k)]
\* node at level k: offset o, size z.  result (rank inside node), equal smaller/greater counts of the interval [i,j)
RECURSIVE TWalk(_, _, _, _, _, _, _, _)
TWalk(k, o, z, i, j, c, sm, gr) ==
  IF k = L THEN <<i, j, sm, gr>>
  ELSE LET b == TBits(k)
           oo == Ones(b, o)  oi == Ones(b, o + i) - oo  oj == Ones(b, o + j) - oo  oz == Ones(b, o + z) - oo
       IN IF Bit(c, k) = 1 THEN TWalk(k + 1, o + (z - oz), oz, oi, oj, c, sm + (j - oj) - (i - oi), gr)
          ELSE TWalk(k + 1, o, z - oz, i - oi, j - oj, c, sm, gr + oj - oi)
RECURSIVE TAccess(_, _, _, _, _)
TAccess(k, o, z, i, c) ==
  IF k = L THEN <<c, i>>
  ELSE LET b == TBits(k)
           oo == Ones(b, o)  oi == Ones(b, o + i) - oo  oz == Ones(b, o + z) - oo
       IN IF b[o + i + 1] = 1 THEN TAccess(k + 1, o + (z - oz), oz, oi, 2 * c + 1)
          ELSE TAccess(k + 1, o, z - oz, i - oi, 2 * c)
Tree == /\ \A i \in 0 .. n - 1 : TAccess(0, 0, n, i, 0) = <<s[i + 1], RankDef(s, i, s[i + 1])>>
        /\ \A c \in Sigma : \A i \in 0 .. n : \A j \in i .. n :
             TWalk(0, 0, n, i, j, c, 0, 0) = <<RankDef(s, i, c), RankDef(s, j, c), Smaller(s, i, j, c), Greater(s, i, j, c)>>

\* two-dimensional range search: visit a child iff its value interval meets [a,b] and its position interval is not empty
RECURSIVE R2(_, _, _, _, _, _, _)
R2(k, ilb, q, pos, a, b, lexonly) ==       \* q the sequence of the node, pos the original positions
  IF q = <<>> THEN {}
  ELSE IF k = L THEN {<<pos[x], q[x]>> : x \in 1 .. Len(q)}
  ELSE LET mid == ilb + 2 ^ (L - k - 1)
           P(v) == SelectSeq([x \in 1 .. Len(q) |-> <<pos[x], q[x]>>], LAMBDA y : Bit(y[2], k) = v)
           D(v, f) == [x \in 1 .. Len(P(v)) |-> P(v)[x][f]]
       IN (IF a < mid THEN R2(k + 1, ilb, D(0, 2), D(0, 1), a, IF b < mid THEN b ELSE mid - 1, lexonly) ELSE {})
          \cup (IF b >= mid THEN R2(k + 1, mid, D(1, 2), D(1, 1), IF a > mid THEN a ELSE mid, b, lexonly) ELSE {})
Clamp(b) == IF b >= 2 ^ L THEN 2 ^ L - 1 ELSE b
Range2d == \A i \in 0 .. n - 1 : \A j \in i + 1 .. n : \A a \in 0 .. 2 ^ L : \A b \in 0 .. 2 ^ L + 1 :
   LET bb == Clamp(b) IN
   (IF a > bb THEN {} ELSE R2(0, 0, SubSeq(s, i + 1, j), [x \in 1 .. j - i |-> i + x - 1], a, bb, FALSE)) = Points(s, i, j, a, b)

\* ---- prefix-code trees over at most four symbols: a shape is a leaf symbol or a pair of shapes
Lf(c) == <<c>>
Shapes == << << <<Lf(0), Lf(1)>>, <<Lf(2), Lf(3)>> >>, <<Lf(0), <<Lf(1), <<Lf(2), Lf(3)>>>>>>, << <<Lf(0), <<Lf(1), Lf(2)>>>>, Lf(3)>>,
             <<Lf(3), <<Lf(0), <<Lf(2), Lf(1)>>>>>>, << <<Lf(2), Lf(0)>>, <<Lf(3), Lf(1)>> >> >>
IsLeaf(t) == Len(t) = 1
RECURSIVE Leaves(_)
Leaves(t) == IF IsLeaf(t) THEN {t[1]} ELSE Leaves(t[1]) \cup Leaves(t[2])
RECURSIVE PRank(_, _, _, _)
PRank(t, q, i, c) == IF IsLeaf(t) THEN i
                     ELSE LET b == [x \in 1 .. Len(q) |-> IF q[x] \in Leaves(t[2]) THEN 1 ELSE 0] IN
                          IF c \in Leaves(t[2]) THEN PRank(t[2], SelectSeq(q, LAMBDA y : y \in Leaves(t[2])), Ones(b, i), c)
                          ELSE PRank(t[1], SelectSeq(q, LAMBDA y : y \in Leaves(t[1])), Zeros(b, i), c)
RECURSIVE PSelect(_, _, _, _)
PSelect(t, q, k, c) == IF IsLeaf(t) THEN k
                       ELSE LET b == [x \in 1 .. Len(q) |-> IF q[x] \in Leaves(t[2]) THEN 1 ELSE 0] IN
                            IF c \in Leaves(t[2]) THEN SelectBit(b, 1, PSelect(t[2], SelectSeq(q, LAMBDA y : y \in Leaves(t[2])), k, c))
                            ELSE SelectBit(b, 0, PSelect(t[1], SelectSeq(q, LAMBDA y : y \in Leaves(t[1])), k, c))
PrefixCode == L = 2 => \A ti \in 1 .. Len(Shapes) : LET t == Shapes[ti] IN
   /\ \A c \in Sigma : \A i \in 0 .. n : PRank(t, s, i, c) = RankDef(s, i, c)
   /\ \A c \in Sigma : \A k \in 1 .. RankDef(s, n, c) : LET p == PSelect(t, s, k, c) - 1 IN s[p + 1] = c /\ RankDef(s, p, c) = k - 1

\* ---- run-length structure: heads of runs, and the run lengths sorted by (symbol, position)
HeadPos == {x \in 0 .. n - 1 : x = 0 \/ s[x] # s[x + 1]}
RLen(x) == LET E == {y \in HeadPos \cup {n} : y > x} IN (CHOOSE y \in E : \A z \in E : y <= z) - x
RECURSIVE SumRL(_)
SumRL(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN RLen(x) + SumRL(X \ {x})
\* rank(i,c): the runs of c that start before i, minus what the last one has beyond i
RLRank(i, c) == LET X == {x \in HeadPos : x < i /\ s[x + 1] = c} IN
   IF X = {} THEN 0
   ELSE LET last == CHOOSE x \in X : \A y \in X : y <= x
            over == IF last + RLen(last) > i THEN last + RLen(last) - i ELSE 0 IN SumRL(X) - over
RunLength == \A c \in Sigma : \A i \in 0 .. n : RLRank(i, c) = RankDef(s, i, c)

\* ---- certificates used by SeqTrace
Occ == [c \in 1 .. 2 ^ L |-> LET I == {x \in 0 .. n - 1 : s[x + 1] = c - 1}
                                 F[x \in 0 .. n] == IF x = 0 THEN <<>> ELSE IF s[x] = c - 1 THEN Append(F[x - 1], x - 1) ELSE F[x - 1] IN F[n]]
Certificates ==
   /\ OccOK(s, Occ)
   /\ \A c \in Sigma : \A i \in 0 .. n : \A r \in -1 .. n + 1 : RankCert(Occ, c, i, r) <=> r = RankDef(s, i, c)
   /\ \A c \in Sigma : \A i \in 0 .. n : Before(Occ, c, i) = RankDef(s, i, c)
   /\ \A c \in 1 .. 2 ^ L : \A k \in 1 .. Len(Occ[c]) : ~OccOK(s, [Occ EXCEPT ![c] = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))])
\* quantile: exactly one value, the one at rank q of the sorted interval
Quantile == \A i \in 0 .. n - 1 : \A j \in i + 1 .. n : \A q \in 0 .. j - i - 1 :
   Cardinality({v \in Sigma : IsQuantile(s, i, j, q, v, CountIn(s, i, j, v))}) = 1
=============================================================================
