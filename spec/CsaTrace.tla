------------------------------ MODULE CsaTrace ------------------------------
(***************************************************************************)
(* Traces of compressed suffix arrays (C16): every view at every position. *)
(* The text, its suffix array and inverse are certified (TextBase); all    *)
(* other views are functions of them.                                      *)
(***************************************************************************)
EXTENDS TraceBase, TextBase
VARIABLES l, cur
vars == <<l, cur>>
C == Trace[cur]
N == Len(C.t)
Sigma == Len(C.tab)
TextOK(e) == TextWF(e.tab, e.t) /\ SACert(e.t, e.sa, e.inv) /\ (\A c \in 1 .. Len(e.tab) - 1 : \E k \in 1 .. Len(e.t) : e.t[k] = c)
SameSeq(r, S) == Len(r) = Len(S) /\ \A k \in 1 .. Len(S) : r[k] = S[k]
Legal(e) ==
  CASE e.op = "sa"  -> SameSeq(e.res, C.sa)
    [] e.op = "isa" -> SameSeq(e.res, C.inv)
    [] e.op = "psi" -> Len(e.res) = N /\ \A k \in 1 .. N : e.res[k] = PsiAt(C.sa, C.inv, k - 1)
    [] e.op = "lf"  -> Len(e.res) = N /\ \A k \in 1 .. N : e.res[k] = LfAt(C.sa, C.inv, k - 1)
    [] e.op = "bwt" -> Len(e.res) = N /\ \A k \in 1 .. N : e.res[k] = BwtAt(C.t, C.sa, k - 1)
    [] e.op = "first" -> Len(e.res) = N /\ \A k \in 1 .. N : e.res[k] = FAt(C.t, C.sa, k - 1)
    [] e.op = "text_cached" -> SameSeq(e.res, C.t)
    [] e.op = "csameta" -> e.res = <<N, 0, Sigma, N, N, N, N, N, N, N>>
    [] e.op = "counts" -> /\ Len(e.res) = Sigma + 1 /\ e.res[1] = 0 /\ e.res[Sigma + 1] = N
                          \* C[c + 1] - C[c] occurrences of c: F changes exactly at the counts
                          /\ \A c \in 1 .. Sigma : /\ e.res[c] < e.res[c + 1]
                                                   /\ FAt(C.t, C.sa, e.res[c]) = c - 1
                                                   /\ FAt(C.t, C.sa, e.res[c + 1] - 1) = c - 1
    [] e.op = "maps" -> /\ Len(e.res.comp) = Len(e.ask) /\ \A k \in 1 .. Len(e.ask) : e.res.comp[k] = (IF e.ask[k] = -1 THEN 0 ELSE e.ask[k])
                        /\ e.res.chr = [k \in 1 .. Sigma |-> k - 1]
    [] e.op = "bwtrank" -> /\ Len(e.res) = N + 1 /\ e.res[1] = 0
                           /\ \A k \in 1 .. N : e.res[k + 1] - e.res[k] = (IF BwtAt(C.t, C.sa, k - 1) = e.c THEN 1 ELSE 0)
    [] e.op = "bwtselect" -> LET m == Len(e.res) - 1 IN
                             /\ m = Cardinality({k \in 1 .. N : C.t[k] = e.c}) /\ e.res[m + 1] = N
                             /\ \A k \in 1 .. m : e.res[k] >= 0 /\ e.res[k] < N /\ BwtAt(C.t, C.sa, e.res[k]) = e.c
                             /\ \A k \in 1 .. m - 1 : e.res[k] < e.res[k + 1]
    [] OTHER -> FALSE
\* large texts: arrays are known by digests
BigLegal(e) ==
  CASE e.op = "sa"  -> e.res = C.sa
    [] e.op = "isa" -> e.res = C.inv
    [] e.op = "psi" -> e.res = C.psi
    [] e.op = "lf"  -> e.res = C.lf
    [] e.op = "bwt" -> e.res = C.bwt
    [] e.op = "first" -> e.res = C.first
    [] e.op = "text_cached" -> e.res = C.text
    [] e.op = "csameta" -> e.res = <<C.n, 0, C.sigma, C.n, C.n, C.n, C.n, C.n, C.n, C.n>>
    [] e.op = "counts" -> Len(e.res) = C.sigma + 1 /\ e.res[1] = 0 /\ \A c \in 1 .. C.sigma : e.res[c + 1] - e.res[c] = C.occ[c]
    [] e.op = "maps" -> /\ Len(e.res.comp) = Len(e.ask) /\ \A k \in 1 .. Len(e.ask) : e.res.comp[k] = (IF e.ask[k] = -1 THEN 0 ELSE e.ask[k])
                        /\ e.res.chr = [k \in 1 .. C.sigma |-> k - 1]
    [] e.op \in {"bwtrank", "bwtselect"} -> e.res = e.ref
    [] OTHER -> FALSE
Init == l = 1 /\ cur = 0 /\ ResetRegisters
Job == Trace[l].op = "job" /\ cur' = 0
Text == Trace[l].op = "text" /\ Judge(l, TextOK(Trace[l])) /\ cur' = l
Big == Trace[l].op = "bigtext" /\ Judge(l, BigTextOK(Trace[l])) /\ cur' = l
Nothing == Trace[l].op = "nothing" /\ Judge(l, Trace[l].res = <<0, 1>>) /\ UNCHANGED cur
Query == Trace[l].op \notin {"job", "text", "bigtext", "nothing"} /\ Judge(l, cur # 0 /\ (IF C.op = "bigtext" THEN BigLegal(Trace[l]) ELSE Legal(Trace[l]))) /\ UNCHANGED cur
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Job \/ Text \/ Big \/ Nothing \/ Query)
Spec == Init /\ [][Next]_vars
=============================================================================
