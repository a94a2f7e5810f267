---------------------------- MODULE IntVecTrace ----------------------------
(***************************************************************************)
(* Recorded histories of integer vectors: four registers; every mutating   *)
(* event carries the contents of the vectors it touched afterwards.  The   *)
(* state is the abstract contents of the registers.                        *)
(***************************************************************************)
EXTENDS TraceBase, IntVec
LL == INSTANCE HugeVec
VARIABLES l, st, fw
vars == <<l, st, fw>>
Vec(d) == [w |-> d[1], b |-> d[2]]
\* a dump is well-formed: width, sizes and capacity agree with the bits
WF(d) == /\ d[1] \in 1 .. 64 /\ (fw > 0 => d[1] = fw)
         /\ d[3] = Len(d[2]) \div d[1] /\ d[4] = Len(d[2]) /\ d[5] = 64 * ((Len(d[2]) + 63) \div 64)
         /\ Len(d[2]) = 0 => d[6] = 1
         /\ Len(d[2]) >= d[1] => d[6] = 0
NoV == [w |-> 1, b |-> <<>>]
E == Trace[l]
V == st[E.r + 1]
A == Vec(E.a)
Two(old, v, u) == v = old
Arith(v, a, i, kind, x, res) ==
  LET o == Elem(v, i)
      n == CASE kind \in {"pre++", "post++"} -> Add(o, One(v.w))
             [] kind \in {"pre--", "post--"} -> Sub(o, One(v.w))
             [] kind = "+=" -> Add(o, Low(x, v.w))
             [] kind = "-=" -> Sub(o, Low(x, v.w))
  IN a = ElemSet(v, i, n) /\ res = (IF kind \in {"post++", "post--"} THEN o ELSE n)
BitOp(kind, x, y) == CASE kind = "and" -> x * y [] kind = "or" -> IF x + y > 0 THEN 1 ELSE 0 [] kind = "xor" -> (x + y) % 2
WalkOK(v, e) ==
  LET f[k \in 0 .. Len(e.d)] == IF k = 0 THEN 0 ELSE f[k - 1] + e.d[k]
      p == f[Len(e.d)]
      r == e.res
  IN /\ r[1] = p /\ r[2] = p - e.q
     /\ r[3] = B(p = e.q) /\ r[4] = B(p # e.q) /\ r[5] = B(p < e.q) /\ r[6] = B(p > e.q) /\ r[7] = B(p <= e.q) /\ r[8] = B(p >= e.q)
     /\ p < N(v) => r[9] = Elem(v, p) /\ r[10] = Elem(v, IF e.q < N(v) THEN e.q ELSE p)
OK ==
  CASE E.op = "havoc" -> WF(E.a)
    [] E.op = "new" -> WF(E.a) /\ A.w = E.w /\ Len(A.b) = E.n * E.w /\ FillOK([w |-> E.w, b |-> A.b], A, E.x)
    [] E.op = "resize" -> WF(E.a) /\ ResizeOK(V, A, E.n)
    [] E.op = "width" -> WF(E.a) /\ A = [w |-> NewWidth(E.w), b |-> V.b]
    [] E.op = "set" -> WF(E.a) /\ A = [V EXCEPT !.b = SetBits(V.b, E.i, E.len, E.x)]
    [] E.op = "getint" -> \A k \in 1 .. Len(E.q) : E.q[k][3] = SubSeq(V.b, E.q[k][1] + 1, E.q[k][1] + E.q[k][2])
    [] E.op = "arith" -> WF(E.a) /\ Arith(V, A, E.i, E.kind, E.x, E.res)
    [] E.op = "assign" -> WF(E.a) /\ A = ElemSet(V, E.i, Elem(V, E.j))
    [] E.op = "swapel" -> WF(E.a) /\ A = ElemSet(ElemSet(V, E.i, Elem(V, E.j)), E.j, Elem(V, E.i))
    [] E.op = "bitop" -> WF(E.a) /\ WF(E.c) /\ LET U == st[E.s + 1] IN
                           A = [V EXCEPT !.b = [k \in 1 .. Len(V.b) |-> BitOp(E.kind, V.b[k], U.b[k])]] /\ (E.s # E.r => Vec(E.c) = U)
    [] E.op = "flip" -> WF(E.a) /\ A = [V EXCEPT !.b = Not(V.b)]
    [] E.op = "copy" -> WF(E.a) /\ WF(E.c) /\ A = st[E.s + 1] /\ Vec(E.c) = st[E.s + 1]
    [] E.op = "move" -> WF(E.a) /\ WF(E.c) /\ A = st[E.s + 1]
    [] E.op = "swap" -> WF(E.a) /\ WF(E.c) /\ A = st[E.s + 1] /\ Vec(E.c) = V
    [] E.op = "cmp" -> LET U == st[E.s + 1] q == Equal(V, U) c == SeqCmp(V, U, 0) IN
                         E.res = <<B(q), B(~q), B(c < 0), B(c > 0), B(q \/ c < 0), B(q \/ c > 0)>>
    [] E.op = "iter" -> (\A k \in 1 .. Len(E.res) : E.res[k] = SubSeq(V.b, 1, NBits(V))) /\ E.dist = <<N(V), N(V), -N(V)>>
    [] E.op = "walk" -> WalkOK(V, E)
    [] E.op = "fillval" -> WF(E.a) /\ FillOK(V, A, E.x)
    [] E.op = "id" -> WF(E.a) /\ IdOK(V, A)
    [] E.op = "constbits" -> WF(E.a) /\ A = [V EXCEPT !.b = [k \in 1 .. Len(V.b) |-> E.v]]
    [] E.op = "mod" -> WF(E.a) /\ ModOK(V, A, E.m, E.q)
    [] E.op = "compress" -> WF(E.a) /\ CompressOK(V, A)
    [] E.op = "expand" -> WF(E.a) /\ ExpandOK(V, A, E.w)
    [] E.op = "count" -> E.res = <<Cnt1(V.b), Cnt10(V.b), Cnt01(V.b)>>
    [] E.op = "find" -> \A k \in 1 .. Len(E.q) : NextBitOK(V.b, E.q[k], E.next[k]) /\ PrevBitOK(V.b, E.q[k], E.prev[k])
    [] E.op = "reverse" -> WF(E.a) /\ A.w = V.w /\ A.b = [k \in 1 .. Len(V.b) |-> IF k > NBits(V) THEN V.b[k]
                               ELSE V.b[(N(V) - 1 - ((k - 1) \div V.w)) * V.w + ((k - 1) % V.w) + 1]]
    [] E.op = "rotate" -> WF(E.a) /\ A.w = V.w /\ A.b = [k \in 1 .. Len(V.b) |-> IF k > NBits(V) THEN V.b[k] ELSE V.b[((k - 1 + E.k * V.w) % NBits(V)) + 1]]
    [] E.op = "sort" -> WF(E.a) /\ SortedPerm(V, A)
    [] E.op = "all" -> \A r \in 1 .. 4 : WF(E.d[r]) /\ Vec(E.d[r]) = st[r]
    [] E.op = "huge" -> LL!HugeOK(E) /\ LL!LMulSmall(E.n, E.w) = E.bits /\ E.dist = E.q
    [] OTHER -> FALSE
\* after a rejected event the state is taken from the trace, so that later events can be judged
Upd == [r \in 1 .. 4 |->
   CASE E.op = "all" -> Vec(E.d[r])
     [] Has(E, "a") /\ r = E.r + 1 -> Vec(E.a)
     [] Has(E, "c") /\ r = E.s + 1 -> Vec(E.c)
     [] OTHER -> st[r]]
Init == l = 1 /\ st = [r \in 1 .. 4 |-> NoV] /\ fw = 0 /\ ResetRegisters
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ CASE E.op = "job" -> st' = [r \in 1 .. 4 |-> NoV] /\ fw' = 0
             [] E.op = "case" -> st' = [r \in 1 .. 4 |-> NoV] /\ fw' = E.fw
             [] OTHER -> Judge(l, OK) /\ st' = Upd /\ UNCHANGED fw
Spec == Init /\ [][Next]_vars
=============================================================================
