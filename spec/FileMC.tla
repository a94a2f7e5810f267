------------------------------- MODULE FileMC -------------------------------
(***************************************************************************)
(* Mechanism model of an in-RAM file (C09): a byte vector, an output       *)
(* stream with put pointers wp/we, a pending gap and the append flag, an   *)
(* input stream with get pointers rp/re - refining FileSys (abstract file  *)
(* af, abstract positions aw, ar).  Checked exhaustively (Gen = FALSE);    *)
(* generates behaviours replayed on RAM and disk files (Gen = TRUE).       *)
(***************************************************************************)
EXTENDS FileSys, TLC
CONSTANTS MaxLen, MaxOff, Chunk, Gen, K
VARIABLES ex, data, w, r, af, aw, ar, stale, hist
vars == <<ex, data, w, r, af, aw, ar, stale, hist>>
NoW == [on |-> FALSE, p |-> 0, e |-> 0, gap |-> 0, app |-> FALSE]
NoR == [on |-> FALSE, p |-> 0, e |-> 0, gap |-> 0]
Rec(o) == hist' = IF Gen THEN Append(hist, o) ELSE hist
Init == ex = FALSE /\ data = <<>> /\ w = NoW /\ r = NoR /\ af = Missing /\ aw = 0 /\ ar = 0 /\ stale = FALSE /\ hist = <<>>
Min(a, b) == IF a < b THEN a ELSE b
\* seekpos of the stream buffer
SeekW(d, sp, app) == IF app THEN [on |-> TRUE, p |-> Len(d), e |-> Len(d), gap |-> 0, app |-> TRUE]
                     ELSE [on |-> TRUE, p |-> Min(sp, Len(d)), e |-> Len(d), gap |-> sp - Min(sp, Len(d)), app |-> FALSE]
SeekR(d, sp) == [on |-> TRUE, p |-> Min(sp, Len(d)), e |-> Len(d), gap |-> sp - Min(sp, Len(d))]
InF(m) == m >= 4
TruncF(m) == m \in {1, 5}
AppF(m) == m \in {2, 3, 6}
OutF(m) == m # 2
OpenW(m, ate) ==
  LET ok == ex \/ ~(InF(m) /\ ~TruncF(m) /\ ~AppF(m))
      cut == TruncF(m) \/ (~InF(m) /\ OutF(m) /\ ~AppF(m))
      d2 == IF ~ex \/ cut THEN <<>> ELSE data
      f2 == OpenOutFile(af, InF(m), TruncF(m), AppF(m))
  IN /\ ~w.on
     /\ Assert(ok = OpenOutOK(af, InF(m), TruncF(m), AppF(m)), "open")
     /\ IF ok THEN ex' = TRUE /\ data' = d2 /\ w' = SeekW(d2, IF ate = 1 THEN Len(d2) ELSE 0, AppF(m)) /\ af' = f2 /\ aw' = OpenOutPos(f2, ate = 1) /\ stale' = r.on
        ELSE UNCHANGED <<ex, data, w, af, aw, stale>>
     /\ UNCHANGED <<r, ar>>
RECURSIVE Put(_, _, _, _)
Put(d, s, n, v) ==
  IF n = 0 THEN [d |-> d, s |-> s]
  ELSE IF s.p < s.e THEN Put([d EXCEPT ![s.p + 1] = v], [s EXCEPT !.p = @ + 1], n - 1, v)
  ELSE LET d2 == Append([i \in 1 .. Len(d) + s.gap |-> IF i <= Len(d) THEN d[i] ELSE 0], v)
       IN Put(d2, [s EXCEPT !.p = Len(d2), !.e = Len(d2), !.gap = 0], n - 1, v)
Write(n, v) ==
  LET x == Put(data, w, n, v)
      p == IF w.app THEN Len(af.b) ELSE aw
  IN /\ w.on /\ p + n <= MaxLen /\ Len(data) + w.gap + n <= MaxLen + Chunk
     /\ data' = x.d /\ w' = x.s
     /\ af' = [af EXCEPT !.b = WriteAt(@, p, [i \in 1 .. n |-> v])] /\ aw' = p + n
     /\ stale' = r.on /\ UNCHANGED <<ex, r, ar>>
PosW == w.p + w.gap
PosR == r.p + r.gap
SeekOut(off, way) ==
  LET t == SeekTarget(PosW, Len(data), off, way)  a == SeekTarget(aw, Len(af.b), off, way)
  IN /\ w.on /\ (w.app => way # 1) /\ t >= 0 /\ t <= MaxLen + 1
     /\ w' = SeekW(data, t, w.app) /\ aw' = a
     /\ UNCHANGED <<ex, data, r, af, ar, stale>>
TellW == w.on /\ UNCHANGED <<ex, data, w, r, af, aw, ar, stale>>
CloseW == w.on /\ w' = NoW /\ UNCHANGED <<ex, data, r, af, aw, ar, stale>>
OpenR(ate) == /\ ~r.on /\ ex = af.ok
              /\ IF ex THEN r' = SeekR(data, IF ate = 1 THEN Len(data) ELSE 0) /\ ar' = (IF ate = 1 THEN Len(af.b) ELSE 0) ELSE UNCHANGED <<r, ar>>
              /\ stale' = FALSE /\ UNCHANGED <<ex, data, w, af, aw>>
\* a stale reader is repositioned to the beginning first
Read(n) == LET q == IF stale THEN SeekR(data, 0) ELSE r  a == IF stale THEN 0 ELSE ar
               got == SubSeq(data, q.p + 1, Min(q.p + n, q.e))  exp == ReadAt(af.b, a, n) IN
  /\ r.on /\ Assert(got = exp, <<"read", got, exp>>)
  /\ r' = [q EXCEPT !.p = @ + Len(got)] /\ ar' = a + Len(exp) /\ stale' = FALSE
  /\ UNCHANGED <<ex, data, w, af, aw>>
SeekIn(off, way) ==
  LET t == SeekTarget(PosR, Len(data), off, way)  a == SeekTarget(ar, Len(af.b), off, way)
  IN /\ r.on /\ (stale => way # 1) /\ t >= 0 /\ t <= MaxLen + 1
     /\ r' = SeekR(data, t) /\ ar' = a /\ stale' = FALSE /\ UNCHANGED <<ex, data, w, af, aw>>
TellR == r.on /\ UNCHANGED <<ex, data, w, r, af, aw, ar, stale>>
CloseR == r.on /\ r' = NoR /\ stale' = FALSE /\ UNCHANGED <<ex, data, w, af, aw, ar>>
Remove == ~w.on /\ ~r.on /\ ex' = FALSE /\ data' = <<>> /\ af' = Missing /\ UNCHANGED <<w, r, aw, ar, stale>>
Next ==
  /\ ~Gen \/ Len(hist) < K
  /\ \/ \E m \in 0 .. 6, a \in {0, 1} : OpenW(m, a) /\ Rec(<<0, m, a>>)
     \/ \E n \in 1 .. Chunk, v \in 1 .. 2 : Write(n, v) /\ Rec(<<1, n, v>>)
     \/ \E o \in -2 .. MaxOff, k \in 0 .. 2 : SeekOut(o, k) /\ Rec(<<2, o, k>>)
     \/ Gen /\ TellW /\ Rec(<<3, 0, 0>>)
     \/ CloseW /\ Rec(<<4, 0, 0>>)
     \/ \E a \in {0, 1} : OpenR(a) /\ Rec(<<5, a, 0>>)
     \/ \E n \in 1 .. Chunk : Read(n) /\ Rec(<<6, n, 0>>)
     \/ \E o \in -2 .. MaxOff, k \in 0 .. 2 : SeekIn(o, k) /\ Rec(<<7, o, k>>)
     \/ Gen /\ TellR /\ Rec(<<8, 0, 0>>)
     \/ CloseR /\ Rec(<<9, 0, 0>>)
     \/ Remove /\ (~Gen \/ Len(hist) % 10 = 9) /\ Rec(<<10, 0, 0>>)
Spec == Init /\ [][Next]_vars
Refines == ex = af.ok /\ (ex => data = af.b)
Positions == /\ w.on /\ ~w.app => PosW = aw
             /\ w.on /\ w.app => w.p = Len(data) /\ w.gap = 0
             /\ r.on /\ ~stale => PosR = ar
\* pointers of a stream that is not stale lie inside the vector
Bounds == /\ w.on => w.p <= w.e /\ w.e = Len(data) /\ (w.gap > 0 => w.p = w.e)
          /\ r.on /\ ~stale => r.p <= r.e /\ r.e <= Len(data)
Emit == ~Gen \/ Len(hist) < K \/ PrintT("GEN " \o ToString(hist))
=============================================================================
