------------------------------- MODULE BpBase -------------------------------
(***************************************************************************)
(* Balanced parentheses (C19).  s is the sequence (1 opening, 0 closing)   *)
(* over positions 0 .. n-1; e its excess values, m the matching positions, *)
(* p the opening position of the closest pair around an opening one (-1:   *)
(* none).  BpCert characterises e, m and p by local conditions, and all    *)
(* operations are defined on them; BpMC shows that they agree with the     *)
(* definitions by scanning, for every balanced sequence up to a length.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == 64
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Cap(a, b) == IF a < b THEN a ELSE b
\* --- smallest elements of the blocks of a sequence of numbers
BlockMin(x) == [k \in 1 .. (Len(x) + B - 1) \div B |-> MinOf({x[i] : i \in B * (k - 1) + 1 .. Cap(B * k, Len(x))})]
\* is there a value below t at the positions a .. b (from 0)?
Below(x, bm, a, b, t) ==
  LET u == (a + B - 1) \div B w == (b + 1) \div B IN
  IF u >= w THEN \E i \in a .. b : x[i + 1] < t
  ELSE \/ \E k \in u .. w - 1 : bm[k + 1] < t
       \/ \E i \in a .. u * B - 1 : x[i + 1] < t
       \/ \E i \in w * B .. b : x[i + 1] < t
IsMinAt(x, bm, a, b, q) == a <= q /\ q <= b /\ ~Below(x, bm, a, b, x[q + 1])
IsLeftMinAt(x, bm, a, b, q) == IsMinAt(x, bm, a, b, q) /\ ~Below(x, bm, a, q - 1, x[q + 1] + 1)
\* --- certificate
Open(s, i) == s[i + 1] = 1
BpCert(s, e, m, p) ==
  LET n == Len(s) IN
  /\ Len(e) = n /\ Len(m) = n /\ Len(p) = n
  /\ n > 0 => e[n] = 0
  /\ \A i \in 1 .. n : s[i] \in {0, 1} /\ e[i] >= 0 /\ e[i] = (IF i = 1 THEN 0 ELSE e[i - 1]) + 2 * s[i] - 1
  /\ \A i \in 1 .. n : m[i] \in 0 .. n - 1 /\ m[m[i] + 1] = i - 1 /\ s[m[i] + 1] = 1 - s[i]
                       /\ (s[i] = 1 => m[i] > i - 1 /\ e[m[i] + 1] = e[i] - 1)
  /\ \A i \in 1 .. n : IF s[i] = 0 THEN p[i] = -1
                       ELSE IF e[i] = 1 THEN p[i] = -1
                       ELSE p[i] \in 0 .. i - 2 /\ s[p[i] + 1] = 1 /\ e[p[i] + 1] = e[i] - 1 /\ m[p[i] + 1] > m[i]
\* --- operations; the position n stands for "there is none"
Nil(n, x) == IF x < 0 THEN n ELSE x
FindClose(s, m, i) == IF Open(s, i) THEN m[i + 1] ELSE i
FindOpen(s, m, i) == IF Open(s, i) THEN i ELSE m[i + 1]
Enclose(s, m, p, i) == IF Open(s, i) THEN Nil(Len(s), p[i + 1]) ELSE m[i + 1]
\* k is the outermost pair that encloses j and opens behind a (a < j)
Outermost(s, m, p, a, j, k) == /\ k > a /\ k < j /\ Open(s, k) /\ m[k + 1] > m[j + 1] /\ p[k + 1] <= a
RRPre(s, m, i, j) == Open(s, i) /\ Open(s, j) /\ m[i + 1] < j
IsRREnclose(s, m, p, i, j, k) == IF p[j + 1] <= m[i + 1] THEN k = Len(s) ELSE Outermost(s, m, p, m[i + 1], j, k)
\* k is the closest pair around i and j: the parent of the outermost pair around j (or j) behind i
IsDoubleEnclose(s, m, p, i, j, rr, k) == k = Nil(Len(s), IF rr = Len(s) THEN p[j + 1] ELSE p[rr + 1])
\* the first opening position in l .. r-1 that is not closed before r
Inner(s, m, p, r) == IF Open(s, r) THEN p[r + 1] ELSE m[r + 1]     \* the closest pair that opens before r and closes at r or behind
IsRmqOpen(s, m, p, l, r, k) ==
  IF l >= r \/ Inner(s, m, p, r) < l THEN k = Len(s)
  ELSE l <= k /\ k < r /\ Open(s, k) /\ m[k + 1] >= r /\ p[k + 1] < l
Preceding(s, i, q) == q \in 0 .. i /\ (\A k \in i - q .. i - 1 : ~Open(s, k)) /\ (i - q > 0 => Open(s, i - q - 1))
RECURSIVE LevelAnc(_, _, _)
LevelAnc(p, i, d) == IF i < 0 \/ d = 0 THEN i ELSE LevelAnc(p, p[i + 1], d - 1)
=============================================================================
