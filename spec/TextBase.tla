----------------------------- MODULE TextBase -------------------------------
(***************************************************************************)
(* A text over an ordered alphabet and the objects that are functions of   *)
(* it: suffix array, inverse, LCP array, BWT, LF and Psi.  Positions are   *)
(* 0-based as in the library; sequence s holds position p at s[p + 1].     *)
(* Symbols are represented by their index in the (strictly increasing)     *)
(* symbol table, so the order of the indices is the order of the symbols;  *)
(* index 0 is the terminator, which occurs exactly once, at the end.       *)
(*                                                                         *)
(* Suffix arrays and LCP arrays are fixed by certificates (SACert,         *)
(* LCPCert) that are linear to check; SortMC.tla checks exhaustively for   *)
(* all small texts that they hold exactly for the arrays of the            *)
(* definition (IsSA, IsLCP).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Limbs, TLC

At(s, p) == s[p + 1]
TextWF(tab, t) == LET n == Len(t) IN
  /\ n >= 1 /\ Len(tab) >= 1 /\ tab[1] = <<0, 0, 0, 0>>
  /\ \A k \in 1 .. Len(tab) - 1 : LCmp(tab[k], tab[k + 1]) = -1
  /\ t[n] = 0 /\ \A k \in 1 .. n - 1 : t[k] > 0 /\ t[k] < Len(tab)
\* ---- definitions
RECURSIVE SufLess(_, _, _)
SufLess(t, a, b) == IF At(t, a) # At(t, b) THEN At(t, a) < At(t, b)
                    ELSE IF a + 1 = Len(t) THEN b + 1 < Len(t) ELSE IF b + 1 = Len(t) THEN FALSE ELSE SufLess(t, a + 1, b + 1)
IsSA(t, sa) == /\ Len(sa) = Len(t) /\ {sa[k] : k \in 1 .. Len(sa)} = 0 .. Len(t) - 1
               /\ \A k \in 1 .. Len(sa) - 1 : SufLess(t, sa[k], sa[k + 1])
RECURSIVE Ext(_, _, _)
Ext(t, a, b) == IF a >= Len(t) \/ b >= Len(t) THEN 0 ELSE IF At(t, a) # At(t, b) THEN 0 ELSE 1 + Ext(t, a + 1, b + 1)
IsLCP(t, sa, lcp) == Len(lcp) = Len(t) /\ lcp[1] = 0 /\ \A k \in 2 .. Len(t) : lcp[k] = Ext(t, sa[k - 1], sa[k])
\* ---- certificates
SACert(t, sa, inv) == LET n == Len(t) IN
  /\ Len(sa) = n /\ Len(inv) = n
  /\ \A k \in 1 .. n : sa[k] >= 0 /\ sa[k] < n /\ inv[sa[k] + 1] = k - 1
  /\ \A k \in 1 .. n - 1 : LET a == sa[k] b == sa[k + 1] IN
        \/ At(t, a) < At(t, b)
        \/ At(t, a) = At(t, b) /\ a + 1 < n /\ b + 1 < n /\ At(inv, a + 1) < At(inv, b + 1)
LCPCert(t, sa, inv, lcp) == LET n == Len(t) IN
  /\ Len(lcp) = n /\ lcp[1] = 0
  /\ \A k \in 2 .. n : LET p == sa[k] q == sa[k - 1] h == lcp[k] IN
       /\ h >= 0
       /\ IF p > 0 /\ q > 0 /\ At(t, p - 1) = At(t, q - 1)
          THEN At(lcp, At(inv, p - 1)) = h + 1
          ELSE /\ p + h < n /\ q + h < n
               /\ \A j \in 0 .. h - 1 : At(t, p + j) = At(t, q + j)
               /\ At(t, p + h) # At(t, q + h)
\* ---- large texts: the same certificates at sampled ranks k; the arrays themselves are known by digests
BigSampleOK(n, x) ==
  /\ x.a >= 0 /\ x.a < n /\ x.b >= 0 /\ x.b < n /\ x.ia = x.k /\ x.ib = x.k + 1
  \* neighbours in the suffix array are in order
  /\ \/ x.wa[1] < x.wb[1]
     \/ x.wa[1] = x.wb[1] /\ x.a + 1 < n /\ x.b + 1 < n /\ x.ja < x.jb
  \* the LCP value
  /\ x.h >= 0 /\ x.a + x.h < n /\ x.b + x.h < n /\ x.ma # x.mb
  /\ \A j \in 1 .. Len(x.wa) : j <= x.h => x.wa[j] = x.wb[j]
  /\ (x.pa = x.pb /\ x.pa # -1) => x.lp = x.h + 1
RECURSIVE SumRange(_, _, _)
SumRange(s, a, b) == IF a > b THEN 0 ELSE IF a = b THEN s[a] ELSE LET m == (a + b) \div 2 IN SumRange(s, a, m) + SumRange(s, m + 1, b)
BigTextOK(e) ==
  /\ Len(e.occ) = e.sigma /\ e.occ[1] = 1 /\ (\A c \in 1 .. e.sigma : e.occ[c] > 0) /\ SumRange(e.occ, 1, e.sigma) = e.n
  /\ e.tab[1] = <<0, 0, 0, 0>> /\ \A k \in 1 .. Len(e.tab) - 1 : LCmp(e.tab[k], e.tab[k + 1]) = -1
  /\ Len(e.samples) > 0 /\ \A i \in 1 .. Len(e.samples) : BigSampleOK(e.n, e.samples[i])
\* ---- derived objects (position -> value)
Prev(n, p) == IF p = 0 THEN n - 1 ELSE p - 1
Succ(n, p) == IF p = n - 1 THEN 0 ELSE p + 1
BwtAt(t, sa, i) == At(t, Prev(Len(t), At(sa, i)))
LfAt(sa, inv, i) == At(inv, Prev(Len(sa), At(sa, i)))
PsiAt(sa, inv, i) == At(inv, Succ(Len(sa), At(sa, i)))
FAt(t, sa, i) == At(t, At(sa, i))
\* number of positions with a symbol smaller than c
CountLess(t, c) == Cardinality({k \in 1 .. Len(t) : t[k] < c})
=============================================================================
