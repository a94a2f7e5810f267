----------------------------- MODULE CacheTrace -----------------------------
(***************************************************************************)
(* Traces of index constructions through caches (C23): what lies in the    *)
(* directories (disk and in-RAM names) before and after, what the file map *)
(* registers, the fingerprint of the built index and the contents of the   *)
(* registered intermediate arrays.                                         *)
(***************************************************************************)
EXTENDS TraceBase, TextBase
VARIABLES l, cur, ref, files
vars == <<l, cur, ref, files>>
C == Trace[cur]
N == Len(C.t)
Rng(s) == {s[k] : k \in 1 .. Len(s)}
TextOK(e) == TextWF(e.tab, e.t) /\ SACert(e.t, e.sa, e.inv) /\ LCPCert(e.t, e.sa, e.inv, e.lcp)
SameSeq(r, S) == Len(r) = Len(S) /\ \A k \in 1 .. Len(S) : r[k] = S[k]
\* the content announced by a key of the cache
Entry(e) == CASE e.key \in {"text", "text_int"} -> SameSeq(e.res, C.t)
              [] e.key = "sa" -> SameSeq(e.res, C.sa)
              [] e.key = "isa" -> SameSeq(e.res, C.inv)
              [] e.key \in {"bwt", "bwt_int"} -> Len(e.res) = N /\ \A k \in 1 .. N : e.res[k] = BwtAt(C.t, C.sa, k - 1)
              [] e.key = "lcp" -> SameSeq(e.res, C.lcp)
              [] e.key = "psi" -> Len(e.res) = N /\ \A k \in 1 .. N : e.res[k] = PsiAt(C.sa, C.inv, k - 1)
              [] OTHER -> FALSE
\* one index of one text has one fingerprint, however it is built
SameIndex(e) == e.idx \in DOMAIN ref => ref[e.idx] = e.fp
Build(e) == LET after == Rng(e.after) made == after \ files gone == files \ after IN
  /\ SameIndex(e)
  /\ e.changed = <<>>                                \* the input and the files of others are byte for byte the same
  /\ IF e.del = 1 THEN made = {} /\ gone \subseteq Rng(e.mine)
     ELSE made \subseteq Rng(e.reg) /\ Rng(e.reg) \subseteq after /\ gone = {}
Refused(e) == e.res = "refused" /\ Rng(e.after) = files /\ e.changed = <<>>
Legal(e) == CASE e.op = "build" -> Build(e)
              [] e.op = "refuse" -> Refused(e)
              [] e.op = "entry" -> Entry(e)
              [] e.op = "object" -> SameIndex(e)
              [] e.op = "dir" -> TRUE
              [] OTHER -> FALSE
Init == l = 1 /\ cur = 0 /\ ref = <<>> /\ files = {} /\ ResetRegisters
Job == Trace[l].op = "job" /\ cur' = 0 /\ ref' = <<>> /\ files' = {}
Text == Trace[l].op = "text" /\ Judge(l, TextOK(Trace[l])) /\ cur' = l /\ ref' = <<>> /\ files' = {}
Query == /\ Trace[l].op \notin {"job", "text"} /\ Judge(l, cur # 0 /\ Legal(Trace[l])) /\ UNCHANGED cur
         /\ ref' = IF Has(Trace[l], "fp") /\ Trace[l].idx \notin DOMAIN ref THEN (Trace[l].idx :> Trace[l].fp) @@ ref ELSE ref
         /\ files' = IF Has(Trace[l], "after") THEN Rng(Trace[l].after) ELSE files
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Job \/ Text \/ Query)
Spec == Init /\ [][Next]_vars
=============================================================================
