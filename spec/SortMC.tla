------------------------------- MODULE SortMC -------------------------------
(***************************************************************************)
(* For every text of length <= N over K letters (plus terminator):         *)
(* exactly one array satisfies the suffix array definition and exactly the *)
(* same arrays have an accepted certificate; likewise for the LCP array.   *)
(* Also the identities between SA, ISA, LF, Psi, BWT that the index        *)
(* structures are built on.                                                *)
(***************************************************************************)
EXTENDS TextBase
CONSTANTS N, K
VARIABLES t
Perms(n) == {f \in [1 .. n -> 0 .. n - 1] : Cardinality({f[k] : k \in 1 .. n}) = n}
InvOf(sa) == [k \in 1 .. Len(sa) |-> (CHOOSE j \in 1 .. Len(sa) : sa[j] = k - 1) - 1]
Init == t = <<0>>
Next == Len(t) <= N /\ \E c \in 1 .. K : t' = <<c>> \o t
Spec == Init /\ [][Next]_t
TheSA(x) == CHOOSE f \in Perms(Len(x)) : IsSA(x, f)
SAExact == \A f \in Perms(Len(t)) : IsSA(t, f) <=> SACert(t, f, InvOf(f))
LCPArrays(x) == [1 .. Len(x) -> 0 .. Len(x) - 1]
LCPExact == LET sa == TLCEval(TheSA(t)) inv == TLCEval(InvOf(sa)) IN
  Len(t) <= 5 => \A h \in LCPArrays(t) : IsLCP(t, sa, h) <=> LCPCert(t, sa, inv, h)
LCPHolds == LET sa == TLCEval(TheSA(t)) inv == TLCEval(InvOf(sa)) h == [k \in 1 .. Len(t) |-> IF k = 1 THEN 0 ELSE Ext(t, sa[k - 1], sa[k])] IN LCPCert(t, sa, inv, h)
Identities == LET sa == TLCEval(TheSA(t)) inv == TLCEval(InvOf(sa)) n == Len(t) IN
  \A i \in 0 .. n - 1 :
    /\ LfAt(sa, inv, PsiAt(sa, inv, i)) = i /\ PsiAt(sa, inv, LfAt(sa, inv, i)) = i
    \* LF(i) = C[bwt[i]] + rank(bwt, i, bwt[i])
    /\ LET c == BwtAt(t, sa, i) IN LfAt(sa, inv, i) = CountLess(t, c) + Cardinality({j \in 0 .. i - 1 : BwtAt(t, sa, j) = c})
    \* F is sorted: F(i) is the symbol whose C-interval holds i
    /\ LET c == FAt(t, sa, i) IN CountLess(t, c) <= i /\ i < CountLess(t, c + 1)
    \* inside one C-interval Psi increases
    /\ (i + 1 < n /\ FAt(t, sa, i) = FAt(t, sa, i + 1)) => PsiAt(sa, inv, i) < PsiAt(sa, inv, i + 1)
=============================================================================
