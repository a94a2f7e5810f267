------------------------------- MODULE BitVec -------------------------------
(***************************************************************************)
(* A bitvector is a sequence of 0/1; positions are 0-based as in the API.  *)
(* Access, rank and select for the six bit patterns are given              *)
(*  (1) by definition,                                                     *)
(*  (2) as certificates, which the trace specification evaluates on real   *)
(*      answers (complete tables, or single answers over run lengths), and *)
(*  (3) as models of the mechanisms the library uses (two-level rank       *)
(*      directory with carry, superblock/miniblock select, high/low split  *)
(*      of sparse vectors, class/offset blocks with inverted superblocks). *)
(* BitVecMC checks (1)=(2)=(3) exhaustively over all small bitvectors.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Patterns == {"1", "0", "10", "01", "00", "11"}

\* does an occurrence of pattern p end at position j of b?
EndsAt(b, p, j) ==
  CASE p = "1"  -> b[j + 1] = 1
    [] p = "0"  -> b[j + 1] = 0
    [] p = "10" -> j > 0 /\ b[j] = 1 /\ b[j + 1] = 0
    [] p = "01" -> j > 0 /\ b[j] = 0 /\ b[j + 1] = 1
    [] p = "00" -> j > 0 /\ b[j] = 0 /\ b[j + 1] = 0
    [] p = "11" -> j > 0 /\ b[j] = 1 /\ b[j + 1] = 1

----------------------------------------------------------------------------
\* (1) definitions
Occ(b, p) == {j \in 0 .. Len(b) - 1 : EndsAt(b, p, j)}
Rank(b, p, i) == Cardinality({j \in Occ(b, p) : j < i})
Count(b, p) == Cardinality(Occ(b, p))
Select(b, p, k) == CHOOSE j \in Occ(b, p) : Rank(b, p, j) = k - 1
Window(b, i, l) == SubSeq(b, i + 1, i + l)

----------------------------------------------------------------------------
\* (2) certificates on complete tables
RankTable(b, p, t) ==
  /\ Len(t) = Len(b) + 1
  /\ t[1] = 0
  /\ \A j \in 0 .. Len(b) - 1 : t[j + 2] = t[j + 1] + (IF EndsAt(b, p, j) THEN 1 ELSE 0)

SelectTable(b, p, s) ==
  /\ \A k \in 1 .. Len(s) : s[k] >= 0 /\ s[k] < Len(b) /\ EndsAt(b, p, s[k])
  /\ \A k \in 1 .. Len(s) - 1 : s[k] < s[k + 1]
  /\ Len(s) = Cardinality({j \in 1 .. Len(b) : EndsAt(b, p, j - 1)})

\* (2) single answers over a run-length view: r.s[k] = start, r.l[k] = length of the k-th maximal
\* run of ones, r.c[k] = number of ones before it
RunsOK(n, r) ==
  /\ Len(r.s) = Len(r.l) /\ Len(r.s) = Len(r.c)
  /\ \A k \in 1 .. Len(r.s) :
       /\ r.l[k] > 0
       /\ r.s[k] >= 0 /\ r.s[k] + r.l[k] <= n
       /\ k > 1 => r.s[k] > r.s[k - 1] + r.l[k - 1] /\ r.c[k] = r.c[k - 1] + r.l[k - 1]
       /\ k = 1 => r.c[k] = 0

\* number of runs that start before position i (binary search)
RECURSIVE BSearch(_, _, _, _)
BSearch(s, i, lo, hi) ==     \* invariant: s[lo] < i (or lo = 0), s[hi] >= i (or hi = Len+1)
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF s[m] < i THEN BSearch(s, i, m, hi) ELSE BSearch(s, i, lo, m)
StartsBefore(r, i) == BSearch(r.s, i, 0, Len(r.s) + 1)

RunRank(n, r, p, i) ==
  LET k   == StartsBefore(r, i)
      one == IF k = 0 THEN 0 ELSE r.c[k] + (IF i - r.s[k] < r.l[k] THEN i - r.s[k] ELSE r.l[k])
      first == IF Len(r.s) > 0 /\ r.s[1] = 0 THEN 1 ELSE 0      \* does bit 0 start a run of ones
      \* runs whose successor zero lies before position i
      ends == IF k = 0 THEN 0 ELSE IF r.s[k] + r.l[k] < i THEN k ELSE k - 1
  IN CASE p = "1"  -> one
       [] p = "0"  -> i - one
       [] p = "01" -> k - (IF k > 0 THEN first ELSE 0)
       [] p = "10" -> ends
       [] p = "11" -> one - k
       [] p = "00" -> (i - one) - ends - (IF i > 0 /\ first = 0 THEN 1 ELSE 0)

RunBit(r, j) == LET k == StartsBefore(r, j + 1) IN IF k > 0 /\ j < r.s[k] + r.l[k] THEN 1 ELSE 0
RunEndsAt(r, p, j) ==
  CASE p = "1"  -> RunBit(r, j) = 1
    [] p = "0"  -> RunBit(r, j) = 0
    [] p = "10" -> j > 0 /\ RunBit(r, j - 1) = 1 /\ RunBit(r, j) = 0
    [] p = "01" -> j > 0 /\ RunBit(r, j - 1) = 0 /\ RunBit(r, j) = 1
    [] p = "00" -> j > 0 /\ RunBit(r, j - 1) = 0 /\ RunBit(r, j) = 0
    [] p = "11" -> j > 0 /\ RunBit(r, j - 1) = 1 /\ RunBit(r, j) = 1
RunSelectOK(n, r, p, k, pos) == pos >= 0 /\ pos < n /\ RunEndsAt(r, p, pos) /\ RunRank(n, r, p, pos) = k - 1

----------------------------------------------------------------------------
\* (3) mechanisms.  W bits per word, K words per superblock.
Min2(a, c) == IF a < c THEN a ELSE c
Max2(a, c) == IF a > c THEN a ELSE c
Ones(b, from, to) == Cardinality({j \in from .. to - 1 : j < Len(b) /\ b[j + 1] = 1})

\* two-level directory: absolute counts per superblock, relative counts per word; a word is counted
\* with the last bit of its predecessor as carry
WordCount(b, p, w, W, upto) ==   \* occurrences ending in word w before in-word offset upto
  Cardinality({j \in w * W .. w * W + upto - 1 : j < Len(b) /\ EndsAt(b, p, j)})
RECURSIVE SumWords(_, _, _, _, _)
SumWords(b, p, from, to, W) == IF from >= to THEN 0 ELSE WordCount(b, p, from, W, W) + SumWords(b, p, from + 1, to, W)
DirRank(b, p, i, W, K) ==
  LET w == i \div W
      sb == w \div K
      abs == SumWords(b, p, 0, sb * K, W)
      rel == SumWords(b, p, sb * K, w, W)
  IN abs + rel + (IF i % W = 0 THEN 0 ELSE WordCount(b, p, w, W, i % W))

\* select: superblocks of S arguments; a superblock spanning more than T positions is stored
\* explicitly, otherwise every M-th argument is stored relative to the first and the rest is scanned
OccSeq(b, p) == LET o == Occ(b, p) IN [k \in 1 .. Cardinality(o) |-> Select(b, p, k)]
RECURSIVE Scan(_, _, _, _)
Scan(b, p, j, k) == IF EndsAt(b, p, j) THEN (IF k = 0 THEN j ELSE Scan(b, p, j + 1, k - 1)) ELSE Scan(b, p, j + 1, k)
McSelect(b, p, k, S, M, T) ==
  LET o == OccSeq(b, p)
      sb == (k - 1) \div S
      first == o[sb * S + 1]
      last == o[Min2((sb + 1) * S, Len(o))]
      long == [x \in 0 .. S - 1 |-> IF sb * S + x + 1 <= Len(o) THEN o[sb * S + x + 1] ELSE 0]
      mini == [x \in 0 .. (S \div M) - 1 |-> IF sb * S + x * M + 1 <= Len(o) THEN o[sb * S + x * M + 1] - first ELSE 0]
      off == (k - 1) % S
  IN IF last - first > T THEN long[off] ELSE Scan(b, p, first + mini[off \div M], off % M)

\* sparse: low wl bits stored explicitly, high parts in unary
Hi(x) == IF x < 2 THEN 0 ELSE IF x < 4 THEN 1 ELSE IF x < 8 THEN 2 ELSE IF x < 16 THEN 3 ELSE 4
Pow2(x) == CASE x = 0 -> 1 [] x = 1 -> 2 [] x = 2 -> 4 [] x = 3 -> 8 [] x = 4 -> 16 [] x = 5 -> 32
SdWl(n, m) == LET lm == Hi(m) + 1 ln == Hi(n) + 1 IN ln - (IF lm = ln THEN lm - 1 ELSE lm)
SdLogm(n, m) == LET lm == Hi(m) + 1 ln == Hi(n) + 1 IN IF lm = ln THEN lm - 1 ELSE lm
SdHigh(b) ==                     \* the unary high part as a bit sequence
  LET o == OccSeq(b, "1") m == Len(o) n == Len(b) u == Pow2(SdWl(n, m))
      sz == m + Pow2(SdLogm(n, m))
      at == {(o[k] \div u) + k - 1 : k \in 1 .. m}
  IN [x \in 1 .. sz |-> IF x - 1 \in at THEN 1 ELSE 0]
SdSelect1(b, k) ==
  LET o == OccSeq(b, "1") n == Len(b) u == Pow2(SdWl(n, Len(o))) h == SdHigh(b)
  IN (o[k] % u) + (Select(h, "1", k) + 1 - k) * u
RECURSIVE SdBack(_, _, _, _, _)
SdBack(h, low, sel, rk, v) == IF sel > 0 /\ h[sel] = 1 /\ low[rk] >= v THEN SdBack(h, low, sel - 1, rk - 1, v) ELSE rk
SdRank1(b, i) ==
  LET o == OccSeq(b, "1") n == Len(b) u == Pow2(SdWl(n, Len(o))) h == SdHigh(b)
      hv == i \div u
      s0 == Select(h, "0", hv + 1)
      low == [k \in 1 .. Len(o) |-> o[k] % u]
  IN SdBack(h, low, s0, s0 - hv, i % u)

\* class/offset blocks of T bits, superblocks of K blocks, superblock inverted if most blocks are heavy
Class(b, blk, T) == Ones(b, blk * T, (blk + 1) * T)
Inverted(b, sb, T, K) == /\ (sb + 1) * K * T <= Len(b)
                         /\ Cardinality({j \in sb * K .. (sb + 1) * K - 1 : Class(b, j, T) > T \div 2}) > K \div 2
Stored(b, blk, T, K) == IF Inverted(b, blk \div K, T, K) THEN T - Class(b, blk, T) ELSE Class(b, blk, T)
RECURSIVE SumStored(_, _, _, _, _, _)
SumStored(b, from, to, inv, T, K) == IF from >= to THEN 0 ELSE (IF inv THEN T - Stored(b, from, T, K) ELSE Stored(b, from, T, K)) + SumStored(b, from + 1, to, inv, T, K)
RrrRank(b, i, T, K) ==
  LET blk == i \div T sb == blk \div K
  IN Ones(b, 0, sb * K * T) + SumStored(b, sb * K, blk, Inverted(b, sb, T, K), T, K) + Ones(b, blk * T, i)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
RECURSIVE Enum(_, _, _)          \* number of a block in its class (first bit most significant)
Enum(x, nn, k) == IF k = 0 \/ nn = 0 THEN 0
                  ELSE IF Head(x) = 1 THEN Binom(nn - 1, k) + Enum(Tail(x), nn - 1, k - 1) ELSE Enum(Tail(x), nn - 1, k)
RECURSIVE Denum(_, _, _)
Denum(nn, k, nr) == IF nn = 0 THEN <<>>
                    ELSE IF k > 0 /\ nr >= Binom(nn - 1, k) THEN <<1>> \o Denum(nn - 1, k - 1, nr - Binom(nn - 1, k)) ELSE <<0>> \o Denum(nn - 1, k, nr)
=============================================================================
