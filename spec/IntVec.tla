------------------------------- MODULE IntVec -------------------------------
(***************************************************************************)
(* The abstract integer vector (C01): an element width w and a sequence of *)
(* bits; element i (from 0) is the window of w bits at i*w.  Operations    *)
(* are given as relations between the vector before (v) and after (a).     *)
(* Bits and values are sequences of 0/1, least significant first.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
N(v) == Len(v.b) \div v.w
Elem(v, i) == SubSeq(v.b, i * v.w + 1, (i + 1) * v.w)
NBits(v) == N(v) * v.w                                  \* bits that belong to elements
Low(x, n) == [k \in 1 .. n |-> IF k <= Len(x) THEN x[k] ELSE 0]
RECURSIVE ToInt(_, _)
ToInt(b, k) == IF k > Len(b) THEN 0 ELSE b[k] + 2 * ToInt(b, k + 1)
RECURSIVE OfInt(_, _)
OfInt(x, n) == IF n = 0 THEN <<>> ELSE <<x % 2>> \o OfInt(x \div 2, n - 1)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* comparison of values
RECURSIVE CmpB(_, _, _)
CmpB(x, y, k) == IF k = 0 THEN 0 ELSE IF x[k] < y[k] THEN -1 ELSE IF x[k] > y[k] THEN 1 ELSE CmpB(x, y, k - 1)
Cmp(x, y) == LET n == Max(Len(x), Len(y)) IN CmpB(Low(x, n), Low(y, n), n)
\* arithmetic modulo 2^Len(x)
RECURSIVE AddB(_, _, _, _, _)
AddB(x, y, k, c, acc) == IF k > Len(x) THEN acc
  ELSE LET s == x[k] + y[k] + c IN AddB(x, y, k + 1, s \div 2, Append(acc, s % 2))
Add(x, y) == AddB(x, Low(y, Len(x)), 1, 0, <<>>)
Not(x) == [k \in DOMAIN x |-> 1 - x[k]]
One(n) == [k \in 1 .. n |-> IF k = 1 THEN 1 ELSE 0]
Sub(x, y) == AddB(x, Not(Low(y, Len(x))), 1, 1, <<>>)
\* products, through digits of 8 bits
Dig(x, k) == LET f[j \in 0 .. 8] == IF j = 8 THEN 0 ELSE (IF 8 * k + j + 1 <= Len(x) THEN x[8 * k + j + 1] ELSE 0) + 2 * f[j + 1] IN f[0]
Digs(x) == [k \in 1 .. 8 |-> Dig(x, k - 1)]
RECURSIVE ConvS(_, _, _, _)
ConvS(p, q, k, j) == IF j > k THEN 0 ELSE p[j] * q[k - j + 1] + ConvS(p, q, k, j + 1)
\* p*q + r = x, all of 8 digits, without overflow
RECURSIVE MulAddEq(_, _, _, _, _, _)
MulAddEq(p, q, r, x, k, c) ==
  IF k > 8 THEN c = 0 /\ \A i, j \in 1 .. 8 : i + j > 9 => p[i] * q[j] = 0
  ELSE LET s == ConvS(p, q, k, 1) + r[k] + c IN s % 256 = x[k] /\ MulAddEq(p, q, r, x, k + 1, s \div 256)

\* --- operations
SetBits(b, off, len, x) == [k \in 1 .. Len(b) |-> IF k > off /\ k <= off + len THEN x[k - off] ELSE b[k]]
ElemSet(v, i, x) == [v EXCEPT !.b = SetBits(v.b, i * v.w, v.w, x)]
SameBits(v, a, k) == \A j \in 1 .. k : a.b[j] = v.b[j]
ResizeOK(v, a, n) == a.w = v.w /\ Len(a.b) = n /\ SameBits(v, a, Min(n, Len(v.b)))
FillOK(v, a, x) == a.w = v.w /\ Len(a.b) = Len(v.b) /\ \A k \in 1 .. NBits(v) : a.b[k] = x[((k - 1) % v.w) + 1]
NewWidth(w) == IF w = 0 \/ w > 64 THEN 64 ELSE w
HiBit(x) == LET S == {k \in DOMAIN x : x[k] = 1} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
MinWidth(v) == LET S == {HiBit(Elem(v, i)) : i \in 0 .. N(v) - 1} \cup {1} IN CHOOSE m \in S : \A x \in S : x <= m
CompressOK(v, a) == LET m == MinWidth(v) IN
  IF v.w > m THEN a.w = m /\ Len(a.b) = N(v) * m /\ \A i \in 0 .. N(v) - 1 : Elem(a, i) = SubSeq(Elem(v, i), 1, m)
  ELSE a = v
ExpandOK(v, a, w) ==
  IF w > v.w THEN a.w = w /\ IF N(v) > 0 THEN Len(a.b) = N(v) * w /\ \A i \in 0 .. N(v) - 1 : Elem(a, i) = Low(Elem(v, i), w)
                             ELSE a.b = v.b
  ELSE a = v
ModOK(v, a, m, q) ==
  /\ a.w = v.w /\ Len(a.b) = Len(v.b) /\ \A k \in NBits(v) + 1 .. Len(v.b) : a.b[k] = v.b[k]
  /\ IF v.w <= 24
     THEN LET big == \E k \in 31 .. 64 : m[k] = 1
              mi == IF big THEN 0 ELSE ToInt(SubSeq(m, 1, 30), 1)
          IN \A i \in 0 .. N(v) - 1 : LET x == ToInt(Elem(v, i), 1) y == ToInt(Elem(a, i), 1) IN y = (IF big THEN x ELSE x % mi)
     ELSE /\ Len(q) = N(v)
          /\ LET dm == Digs(m) IN \A i \in 0 .. N(v) - 1 :
               /\ Cmp(Elem(a, i), m) < 0
               /\ MulAddEq(Digs(q[i + 1]), dm, Digs(Elem(a, i)), Digs(Elem(v, i)), 1, 0)
IdOK(v, a) == /\ a.w = v.w /\ Len(a.b) = Len(v.b)
              /\ \A i \in 0 .. N(v) - 1 : Elem(a, i) = Low(OfInt(i, Min(v.w, 12)), v.w)
\* orders of abstract sequences
RECURSIVE SeqCmp(_, _, _)
SeqCmp(v, u, i) == IF i >= Min(N(v), N(u)) THEN (IF N(v) < N(u) THEN -1 ELSE IF N(v) > N(u) THEN 1 ELSE 0)
                   ELSE LET c == Cmp(Elem(v, i), Elem(u, i)) IN IF c # 0 THEN c ELSE SeqCmp(v, u, i + 1)
Equal(v, u) == v.b = u.b /\ (v.w = u.w \/ Len(v.b) = 0)
B(x) == IF x THEN 1 ELSE 0
Count(b, P(_)) == Cardinality({k \in 1 .. Len(b) : P(k)})
Cnt1(b) == Count(b, LAMBDA k : b[k] = 1)
Cnt10(b) == Count(b, LAMBDA k : k > 1 /\ b[k] = 0 /\ b[k - 1] = 1)
Cnt01(b) == Count(b, LAMBDA k : k > 1 /\ b[k] = 1 /\ b[k - 1] = 0)
NextBitOK(b, i, r) == r \in i .. Len(b) /\ (r < Len(b) => b[r + 1] = 1) /\ \A k \in i + 1 .. Min(r, Len(b)) : b[k] = 0
PrevBitOK(b, i, r) == \/ r \in 0 .. i /\ b[r + 1] = 1 /\ \A k \in r + 2 .. i + 1 : b[k] = 0
                      \/ r = Len(b) /\ \A k \in 1 .. i + 1 : b[k] = 0
SortedPerm(v, a) == /\ a.w = v.w /\ Len(a.b) = Len(v.b)
  /\ LET X == [i \in 1 .. N(v) |-> Elem(v, i - 1)] Y == [i \in 1 .. N(v) |-> Elem(a, i - 1)] IN
     /\ \A i \in 1 .. N(v) - 1 : Cmp(Y[i], Y[i + 1]) <= 0
     /\ \A i \in 1 .. N(v) : Cardinality({j \in 1 .. N(v) : X[j] = X[i]}) = Cardinality({j \in 1 .. N(v) : Y[j] = X[i]})
=============================================================================
