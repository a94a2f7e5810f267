------------------------------ MODULE SaTrace -------------------------------
(***************************************************************************)
(* Traces of suffix array, inverse suffix array, BWT (C14) and LCP array   *)
(* (C15) constructions and LCP representations.                            *)
(***************************************************************************)
EXTENDS TraceBase, TextBase
VARIABLES l, cur
vars == <<l, cur>>
C == Trace[cur]
N == Len(C.t)
TextOK(e) == TextWF(e.tab, e.t) /\ SACert(e.t, e.sa, e.inv) /\ LCPCert(e.t, e.sa, e.inv, e.lcp)
SameSeq(r, S) == Len(r) = Len(S) /\ \A k \in 1 .. Len(S) : r[k] = S[k]
BigLegal(e) == CASE e.op = "sa"  -> e.res = C.sa
                 [] e.op = "isa" -> e.res = C.inv
                 [] e.op = "bwt" -> e.res = C.bwt
                 [] e.op = "lcp" -> e.res = C.lcp
                 [] e.op = "lcpmeta" -> e.res = <<C.n, 0>>
                 [] e.op = "text_cached" -> e.res = C.text
                 [] OTHER -> FALSE
Legal(e) == CASE e.op = "sa"  -> SameSeq(e.res, C.sa)
              [] e.op = "isa" -> SameSeq(e.res, C.inv)
              [] e.op = "bwt" -> Len(e.res) = N /\ \A k \in 1 .. N : e.res[k] = BwtAt(C.t, C.sa, k - 1)
              [] e.op = "lcp" -> SameSeq(e.res, C.lcp)
              [] e.op = "lcpmeta" -> e.res = <<N, 0>>
              [] e.op = "text_cached" -> SameSeq(e.res, C.t)
              [] OTHER -> FALSE
Init == l = 1 /\ cur = 0 /\ ResetRegisters
Job == Trace[l].op = "job" /\ cur' = 0
Text == Trace[l].op = "text" /\ Judge(l, TextOK(Trace[l])) /\ cur' = l
Big == Trace[l].op = "bigtext" /\ Judge(l, BigTextOK(Trace[l])) /\ cur' = l
Query == Trace[l].op \notin {"job", "text", "bigtext"} /\ Judge(l, cur # 0 /\ (IF C.op = "bigtext" THEN BigLegal(Trace[l]) ELSE Legal(Trace[l]))) /\ UNCHANGED cur
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Job \/ Text \/ Big \/ Query)
Spec == Init /\ [][Next]_vars
=============================================================================
