-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* C02: definitions of the word primitives over the bits of a word (a      *)
(* sequence of 0/1, least significant first; positions count from 0), of   *)
(* bit fields in memory, and of arithmetic modulo 2^n.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
B(x) == IF x THEN 1 ELSE 0
\* positions (from 0, ascending) of the elements satisfying P
Positions(n, P(_)) == LET f[k \in 0 .. n] == IF k = 0 THEN <<>> ELSE IF P(k) THEN Append(f[k - 1], k - 1) ELSE f[k - 1] IN f[n]
Ones(x) == Positions(Len(x), LAMBDA k : x[k] = 1)
Last0(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
First0(s) == IF s = <<>> THEN 0 ELSE s[1]
Prev(x, k, c) == IF k = 1 THEN c ELSE x[k - 1]
Map10(x, c) == [k \in DOMAIN x |-> B(x[k] = 0 /\ Prev(x, k, c) = 1)]
Map01(x, c) == [k \in DOMAIN x |-> B(x[k] = 1 /\ Prev(x, k, c) = 0)]
Rev(x) == [k \in DOMAIN x |-> x[Len(x) + 1 - k]]
\* disjoint 11 patterns, read from the low end with carry c: positions of the terminating 1s and
\* the carry into the next word (an unmatched 1 at the top)
RECURSIVE Scan11(_, _, _, _)
Scan11(x, k, p, acc) ==
  IF k > Len(x) THEN [t |-> acc, c |-> p]
  ELSE IF x[k] = 1 /\ p = 1 THEN Scan11(x, k + 1, 0, Append(acc, k - 1))
  ELSE Scan11(x, k + 1, x[k], acc)
Elevens(x, c) == Scan11(x, 1, c, <<>>)
\* --- memory fields
Field(m, pos, len) == SubSeq(m, pos + 1, pos + len)
WriteField(m, pos, len, x) == [k \in DOMAIN m |-> IF k > pos /\ k <= pos + len THEN x[k - pos] ELSE m[k]]
\* --- arithmetic modulo 2^n
RECURSIVE AddB(_, _, _, _, _)
AddB(x, y, k, c, acc) == IF k > Len(x) THEN acc
  ELSE LET s == x[k] + y[k] + c IN AddB(x, y, k + 1, s \div 2, Append(acc, s % 2))
Add(x, y) == AddB(x, y, 1, 0, <<>>)
Not(x) == [k \in DOMAIN x |-> 1 - x[k]]
Sub(x, y) == AddB(x, Not(y), 1, 1, <<>>)
Or(x, y) == [k \in DOMAIN x |-> B(x[k] + y[k] > 0)]
And(x, y) == [k \in DOMAIN x |-> x[k] * y[k]]
Shl(x, s) == [k \in DOMAIN x |-> IF k > s THEN x[k - s] ELSE 0]
Shr(x, s) == [k \in DOMAIN x |-> IF k + s <= Len(x) THEN x[k + s] ELSE 0]
Low(x, n, len) == [k \in 1 .. len |-> IF k <= n /\ k <= Len(x) THEN x[k] ELSE 0]
RECURSIVE CmpB(_, _, _)
CmpB(x, y, k) == IF k = 0 THEN 0 ELSE IF x[k] < y[k] THEN -1 ELSE IF x[k] > y[k] THEN 1 ELSE CmpB(x, y, k - 1)
Cmp(x, y) == CmpB(x, y, Len(x))
=============================================================================
