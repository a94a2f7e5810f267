------------------------------ MODULE SeqDef ------------------------------
(***************************************************************************)
(* Abstract symbol sequences and the queries over them (C12, C13).         *)
(* s is a 1-based TLA+ sequence of codes, positions in queries are 0-based *)
(* as in the library.  occ[c+1] lists the positions of code c; it is a     *)
(* certificate: OccOK checks it against s once, after which a rank answer  *)
(* is checked in constant time.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumLens(_, _)
SumLens(o, k) == IF k = 0 THEN 0 ELSE Len(o[k]) + SumLens(o, k - 1)
OccOK(s, occ) ==
  /\ \A c \in 1 .. Len(occ) :
        /\ \A k \in 1 .. Len(occ[c]) : occ[c][k] \in 0 .. Len(s) - 1 /\ s[occ[c][k] + 1] = c - 1
        /\ \A k \in 1 .. Len(occ[c]) - 1 : occ[c][k] < occ[c][k + 1]
  /\ SumLens(occ, Len(occ)) = Len(s)

\* definitions by scanning
CountIn(s, i, j, c) == Cardinality({x \in i + 1 .. j : s[x] = c})
RankDef(s, i, c) == CountIn(s, 0, i, c)
Smaller(s, i, j, c) == Cardinality({x \in i + 1 .. j : s[x] < c})
Greater(s, i, j, c) == Cardinality({x \in i + 1 .. j : s[x] > c})
Distinct(s, i, j) == {s[x] : x \in i + 1 .. j}
Points(s, i, j, c, d) == {<<x - 1, s[x]>> : x \in {y \in i + 1 .. j : c <= s[y] /\ s[y] <= d}}
IsQuantile(s, i, j, q, v, f) == /\ f = CountIn(s, i, j, v) /\ f > 0
                                /\ Smaller(s, i, j, v) <= q /\ q < Smaller(s, i, j, v) + f
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* constant-time judgement of a rank answer by the certificate
RankCert(occ, c, i, r) == LET o == occ[c + 1] IN
  /\ r \in 0 .. Len(o)
  /\ (r = 0 \/ o[r] < i)
  /\ (r = Len(o) \/ o[r + 1] >= i)
RECURSIVE BS(_, _, _, _)
BS(o, i, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF o[m + 1] < i THEN BS(o, i, m + 1, hi) ELSE BS(o, i, lo, m)
Before(occ, c, i) == BS(occ[c + 1], i, 0, Len(occ[c + 1]))   \* occurrences of c before position i
Asc(q) == \A k \in 1 .. Len(q) - 1 : q[k] < q[k + 1]
LimbLess(a, b) == \/ a[4] < b[4] \/ (a[4] = b[4] /\ a[3] < b[3]) \/ (a[4] = b[4] /\ a[3] = b[3] /\ a[2] < b[2])
                  \/ (a[4] = b[4] /\ a[3] = b[3] /\ a[2] = b[2] /\ a[1] < b[1])
=============================================================================
