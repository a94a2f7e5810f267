----------------------------- MODULE SearchTrace ----------------------------
(***************************************************************************)
(* Traces of pattern searches, locate and extract (C17) on CSAs and CSTs.  *)
(* The answers are functions of the text: the set of positions at which    *)
(* the pattern occurs, and its image under the (certified) inverse suffix  *)
(* array, which is an interval.                                            *)
(***************************************************************************)
EXTENDS TraceBase, TextBase
VARIABLES l, cur, rev
vars == <<l, cur, rev>>
C == Trace[cur]
N == Len(C.t)
TextOK(e) == TextWF(e.tab, e.t) /\ SACert(e.t, e.sa, e.inv)
Starts(t, q, p) == q + Len(p) <= Len(t) /\ \A k \in 1 .. Len(p) : t[q + k] = p[k]
Occ(t, p) == {q \in 0 .. Len(t) - 1 : Starts(t, q, p)}
\* an interval of the suffix array: <<size, first, last>>, <<0, -1, -1>> if there is none
Is(res, S0) == LET S == TLCEval(S0) IN IF S = {} THEN res = <<0, -1, -1>>
              ELSE /\ res[1] = Cardinality(S) /\ res[2] \in S /\ res[3] \in S /\ res[3] - res[2] + 1 = res[1]
                   /\ \A s \in S : s >= res[2] /\ s <= res[3]
Img(inv, S) == {At(inv, q) : q \in S}
Interval(t, inv, p) == Img(inv, Occ(t, p))
RECURSIVE Fwd(_, _, _, _)
\* steps of the suffix-tree search: size, lb, rb for every prefix up to the first which does not occur; O: the occurrences of the prefix of length k - 1
Fwd(res, p, k, O) == IF k > Len(p) THEN res = <<>>
                     ELSE LET O2 == TLCEval({q \in O : q + k <= N /\ C.t[q + k] = p[k]}) IN
                          IF O2 = {} THEN res = <<0>>
                          ELSE Len(res) >= 3 /\ Is(SubSeq(res, 1, 3), Img(C.inv, O2)) /\ Fwd(SubSeq(res, 4, Len(res)), p, k + 1, O2)
RECURSIVE Built(_, _)
\* the pattern after k steps <<backward?, symbol>>
Built(steps, k) == IF k = 0 THEN <<>> ELSE IF steps[k][1] = 1 THEN <<steps[k][2]>> \o Built(steps, k - 1) ELSE Append(Built(steps, k - 1), steps[k][2])
Reverse(p) == [k \in 1 .. Len(p) |-> p[Len(p) + 1 - k]]
Legal(e) ==
  CASE e.op = "count" -> e.res = Cardinality(Occ(C.t, e.p))
    [] e.op = "interval" -> Is(e.res, Interval(C.t, C.inv, e.p))
    [] e.op = "locate" -> LET O == TLCEval(Occ(C.t, e.p)) IN Len(e.res) = Cardinality(O) /\ {e.res[k] : k \in 1 .. Len(e.res)} = O
    [] e.op = "narrow" -> Is(e.res, {i \in e.l .. e.r : Starts(C.t, At(C.sa, i), e.p)})
    [] e.op = "bstep" -> Is(e.res, {LfAt(C.sa, C.inv, i) : i \in {j \in e.l .. e.r : BwtAt(C.t, C.sa, j) = e.c}})
    [] e.op = "extract" -> e.res = SubSeq(C.t, e.b + 1, e.e + 1)
    [] e.op = "cstfwd" -> Fwd(e.res, e.p, 1, 0 .. N - 1)
    [] e.op = "bidi" -> /\ Len(e.res) = Len(e.steps)
                        /\ \A k \in 1 .. Len(e.res) : Len(e.res[k]) > 0 =>
                             LET p == TLCEval(Built(e.steps, k)) F == TLCEval(Interval(C.t, C.inv, p)) B == TLCEval(Interval(Trace[rev].t, Trace[rev].inv, Reverse(p))) r == e.res[k] IN
                             IF F = {} THEN r = <<0>> ELSE Len(r) = 5 /\ Is(SubSeq(r, 1, 3), F) /\ Is(<<r[1], r[4], r[5]>>, B)
    [] OTHER -> FALSE
RevOK(e) == /\ Len(e.t) = N /\ e.t[N] = 0 /\ (\A k \in 1 .. N - 1 : e.t[k] = C.t[N - k]) /\ SACert(e.t, e.sa, e.inv)
Init == l = 1 /\ cur = 0 /\ rev = 0 /\ ResetRegisters
Job == Trace[l].op = "job" /\ cur' = 0 /\ rev' = 0
Text == Trace[l].op = "text" /\ Judge(l, TextOK(Trace[l])) /\ cur' = l /\ rev' = 0
Rev == Trace[l].op = "reverse" /\ Judge(l, RevOK(Trace[l])) /\ rev' = l /\ UNCHANGED cur
Query == Trace[l].op \notin {"job", "text", "reverse"} /\ Judge(l, cur # 0 /\ Legal(Trace[l])) /\ UNCHANGED <<cur, rev>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Job \/ Text \/ Rev \/ Query)
Spec == Init /\ [][Next]_vars
=============================================================================
