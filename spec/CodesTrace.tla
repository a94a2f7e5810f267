----------------------------- MODULE CodesTrace -----------------------------
(***************************************************************************)
(* Traces of the real coders and compressed integer vectors (C06).  A case *)
(* fixes the values (limbs); for coders also their prefix sums mod 2^64,   *)
(* which are checked here and against which sum answers are judged.        *)
(***************************************************************************)
EXTENDS TraceBase, Codes
VARIABLES l, cur
vars == <<l, cur>>
C == Trace[cur]
CaseOK(e) == /\ Len(e.v) = e.n
             /\ e.kind = "code" => /\ Len(e.ps) = e.n + 1 /\ e.ps[1] = LZero(4)
                                   /\ \A i \in 1 .. e.n : e.ps[i + 1] = LAdd(e.ps[i], e.v[i])
EncOK(e) == /\ Len(e.bits) = C.n /\ Len(e.lens) = C.n
            /\ \A i \in 1 .. C.n : e.lens[i] = Len(e.bits[i]) /\ IsWord(e.code, e.w, e.bits[i], C.v[i])
SumOK(e) == Len(e.res) = Len(e.k) /\ \A q \in 1 .. Len(e.k) : LAdd(C.ps[e.k[q] + 1], e.res[q]) = C.ps[e.k[q] + e.n[q] + 1]
DecOK(e) == Len(e.res) = Len(e.k) /\ \A q \in 1 .. Len(e.k) :
  LET k == e.k[q] n == e.n[q] r == e.res[q] IN
    /\ r[1] = SubSeq(C.v, k + 1, k + n)
    /\ Len(r[2]) = n /\ \A i \in 1 .. n : LAdd(C.ps[k + 1], r[2][i]) = C.ps[k + i + 1]
    /\ n > 0 => r[3] = C.v[k + n] /\ r[4] = C.v[k + n]
    /\ LAdd(C.ps[k + 1], r[5]) = C.ps[k + n + 1]
WholeOK(e) == e.res[1] = e.width /\ e.res[2] = e.v
MetaOK(e) == e.res = <<C.n, IF C.n = 0 THEN 1 ELSE 0>>
AllOK(e) == e.res = C.v
SamplesOK(e) == LET m == (C.n + e.dens - 1) \div e.dens IN
  /\ Len(e.res) = m
  /\ \A s \in 1 .. m : e.res[s] = SubSeq(C.v, (s - 1) * e.dens + 1, IF s * e.dens < C.n THEN s * e.dens ELSE C.n)
Legal(e) == CASE e.op = "enc" -> EncOK(e)
              [] e.op = "sum" -> SumOK(e)
              [] e.op = "dec" -> DecOK(e)
              [] e.op = "whole" -> WholeOK(e)
              [] e.op = "meta" -> MetaOK(e)
              [] e.op \in {"all", "iter"} -> AllOK(e)
              [] e.op = "samples" -> SamplesOK(e)
              [] OTHER -> FALSE
Init == l = 1 /\ cur = 0 /\ ResetRegisters
Job == Trace[l].op = "job" /\ cur' = 0
Case == Trace[l].op = "case" /\ Judge(l, CaseOK(Trace[l])) /\ cur' = l
Query == Trace[l].op \notin {"job", "case"} /\ Judge(l, Legal(Trace[l])) /\ UNCHANGED cur
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Job \/ Case \/ Query)
Spec == Init /\ [][Next]_vars
=============================================================================
