---------------------------- MODULE BitVecTrace ----------------------------
(***************************************************************************)
(* Traces of the real bitvectors, rank and select structures (C03,C04,C05) *)
(* A "case" event fixes the abstract bitvector (state variable cur: the    *)
(* index of that event); every query event must agree with it.             *)
(***************************************************************************)
EXTENDS TraceBase, BitVec
VARIABLES l, cur
H == INSTANCE HugeBits WITH HBase <- 16777216, HCap <- 64
vars == <<l, cur>>

C == Trace[cur]
R == [s |-> C.rs, l |-> C.rl, c |-> C.rc]

\* a new abstract bitvector; the run-length view must be well formed
CaseOK(e) == IF e.kind = "segs" THEN H!SegsOK(e.n, e.segs) ELSE IF e.kind = "bits" THEN Len(e.bits) = e.n /\ \A i \in 1 .. e.n : e.bits[i] \in {0, 1}
             ELSE RunsOK(e.n, [s |-> e.rs, l |-> e.rl, c |-> e.rc])
SizeOK(e) == e.res = C.n
AccessOK(e) == e.res = C.bits
AccessAtOK(e) == Len(e.res) = Len(e.pos) /\ \A i \in 1 .. Len(e.pos) : e.res[i] = RunBit(R, e.pos[i])
IntOK(e) ==
  /\ Len(e.res) = Len(e.idx)
  /\ \A i \in 1 .. Len(e.idx) :
       IF C.kind = "bits" THEN e.res[i] = Window(C.bits, e.idx[i], e.len[i])
       ELSE Len(e.res[i]) = e.len[i] /\ \A j \in 1 .. e.len[i] : e.res[i][j] = RunBit(R, e.idx[i] + j - 1)
RankOK(e) == RankTable(C.bits, e.pat, e.res)
RankAtOK(e) == Len(e.res) = Len(e.pos) /\ \A i \in 1 .. Len(e.pos) : e.res[i] = RunRank(C.n, R, e.pat, e.pos[i])
SelectOK(e) == SelectTable(C.bits, e.pat, e.res)
SelectAtOK(e) == Len(e.res) = Len(e.k) /\ \A i \in 1 .. Len(e.k) : RunSelectOK(C.n, R, e.pat, e.k[i], e.res[i])

HIntOK(e) == /\ Len(e.res) = Len(e.pos)
             /\ \A i \in 1 .. Len(e.pos) : \A j \in 1 .. Len(e.res[i]) : e.res[i][j] = H!HBit(C.segs, H!PAdd(e.pos[i], H!PFrom(j - 1)))
HugeLegal(e) ==
  CASE e.op = "hsize" -> e.res = C.n
    [] e.op = "haccess" -> Len(e.res) = Len(e.pos) /\ \A i \in 1 .. Len(e.pos) : e.res[i] = H!HBit(C.segs, e.pos[i])
    [] e.op = "hint" -> HIntOK(e)
    [] e.op = "hrank" -> Len(e.res) = Len(e.pos) /\ \A i \in 1 .. Len(e.pos) : e.res[i] = H!HRank(C.segs, e.pat, e.pos[i])
    [] e.op = "hselect" -> Len(e.res) = Len(e.k) /\ \A i \in 1 .. Len(e.k) : H!HSelectOK(C.n, C.segs, e.pat, e.k[i], e.res[i])
    [] OTHER -> FALSE
Legal(e) == CASE e.op = "size" -> SizeOK(e)
              [] e.op \in {"access", "iter"} -> AccessOK(e)
              [] e.op = "access_at" -> AccessAtOK(e)
              [] e.op = "get_int" -> IntOK(e)
              [] e.op = "rank" -> RankOK(e)
              [] e.op = "rank_at" -> RankAtOK(e)
              [] e.op = "select" -> SelectOK(e)
              [] e.op = "select_at" -> SelectAtOK(e)
              [] OTHER -> FALSE          \* in particular "crash"

Init == l = 1 /\ cur = 0 /\ ResetRegisters
Job == Trace[l].op = "job" /\ cur' = 0
Case == Trace[l].op = "case" /\ Judge(l, CaseOK(Trace[l])) /\ cur' = l
Query == Trace[l].op \notin {"job", "case"} /\ Judge(l, cur # 0 /\ (IF C.kind = "segs" THEN HugeLegal(Trace[l]) ELSE Legal(Trace[l]))) /\ UNCHANGED cur
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Job \/ Case \/ Query)
Spec == Init /\ [][Next]_vars
=============================================================================
