------------------------------ MODULE BufTrace ------------------------------
(***************************************************************************)
(* Recorded histories of int_vector_buffer (C07), random or replayed from  *)
(* BufferMC: three registers, each working on a file.  The user sees the   *)
(* abstract sequence of BufferMC; a closed file holds it.                  *)
(***************************************************************************)
EXTENDS TraceBase, HugeVec
VARIABLES l, bf, fl, tw
vars == <<l, bf, fl, tw>>
E == Trace[l]
None == [ex |-> FALSE, open |-> FALSE, f |-> -1, w |-> 0, els |-> <<>>, plain |-> FALSE]
NoFile == [ok |-> FALSE, w |-> 0, els |-> <<>>, plain |-> FALSE]
Dflt == [None EXCEPT !.ex = TRUE]
Upto(s, n) == [i \in 1 .. IF Len(s) > n THEN Len(s) ELSE n |-> IF i <= Len(s) THEN s[i] ELSE LZero]
\* storing a value: modulo 2^w; a buffer of bits stores truth values
Norm(v, w) == IF tw = 1 THEN (IF v = LZero THEN LZero ELSE LOne) ELSE LMask(v, w)
R == E.r + 1
Bf == bf[R]
\* closing writes the sequence to the file
Persist(files, b) == IF b.ex /\ b.open THEN [files EXCEPT ![b.f + 1] = [ok |-> TRUE, w |-> b.w, els |-> b.els, plain |-> b.plain]] ELSE files
NewVal(o) == CASE E.k \in {"pre++", "post++"} -> Norm(LAdd(o, LOne), Bf.w)
               [] E.k \in {"pre--", "post--"} -> Norm(LSub(o, LOne), Bf.w)
               [] E.k = "+=" -> Norm(LAdd(o, E.x), Bf.w)
               [] E.k = "-=" -> Norm(LSub(o, E.x), Bf.w)
SumTo(d, k) == LET f[j \in 0 .. k] == IF j = 0 THEN 0 ELSE f[j - 1] + d[j] IN f[k]
Bytes(n, w) == (n * w + 7) \div 8
FileLen(f) == IF f.plain THEN Bytes(Len(f.els), f.w) ELSE (IF tw = 0 THEN 9 ELSE 8) + 8 * ((Len(f.els) * f.w + 63) \div 64)
Bn(x) == IF x THEN 1 ELSE 0
OK ==
  CASE E.op \in {"job", "start", "default", "drop", "write", "copyel", "setbuf", "reset", "close", "move", "swap", "mkfile"} -> IF E.op = "setbuf" THEN E.bytes > 0 ELSE TRUE
    [] E.op = "open" -> IF E.out = 1 THEN TRUE ELSE fl[E.f + 1].ok
    [] E.op = "meta" -> /\ E.size = Len(Bf.els) /\ E.open = Bn(Bf.open) /\ E.fn = 1
                        /\ (Bf.open => E.w = Bf.w)
    [] E.op = "read" -> E.res = Bf.els[E.i + 1]
    [] E.op = "arith" -> LET n == NewVal(Bf.els[E.i + 1]) IN E.after = n /\ E.res = (IF E.k \in {"post++", "post--"} THEN Bf.els[E.i + 1] ELSE n)
    [] E.op = "cmpel" -> LET c == LCmp(Bf.els[E.i + 1], bf[E.s + 1].els[E.j + 1]) IN E.eq = Bn(c = 0) /\ E.lt = Bn(c < 0)
    [] E.op = "range" -> /\ E.i + Len(E.res) <= Len(Bf.els) /\ E.res = SubSeq(Bf.els, E.i + 1, E.i + Len(E.res))
    [] E.op = "walk" -> \A k \in 1 .. Len(E.d) : LET p == SumTo(E.d, k) n == Len(Bf.els) IN
                          /\ E.res[k] = Bf.els[p + 1] /\ E.pos[4 * k - 3] = p /\ E.pos[4 * k - 2] = n - p /\ E.pos[4 * k - 1] = Bn(p = 0) /\ E.pos[4 * k] = Bn(p # n)
    [] E.op = "file" -> LET f == fl[E.f + 1] IN
                          IF f.ok THEN /\ E.ok = 1 /\ E.els = f.els /\ E.len = FileLen(f) /\ (~f.plain => E.w = f.w)
                          ELSE E.len = -1
    [] E.op = "huge" -> HugeOK(E)
    [] OTHER -> FALSE
\* effects
Upd ==
  CASE E.op = "job" -> bf' = [i \in 1 .. 3 |-> None] /\ fl' = [i \in 1 .. 8 |-> NoFile] /\ tw' = 0
    [] E.op = "start" -> tw' = E.tw /\ UNCHANGED <<bf, fl>>
    [] E.op = "default" -> bf' = [bf EXCEPT ![R] = Dflt] /\ UNCHANGED <<fl, tw>>
    [] E.op = "drop" -> fl' = Persist(fl, Bf) /\ bf' = [bf EXCEPT ![R] = None] /\ UNCHANGED tw
    [] E.op = "open" ->
         /\ bf' = [bf EXCEPT ![R] = [ex |-> TRUE, open |-> TRUE, f |-> E.f, plain |-> E.plain = 1,
                                     w |-> IF E.out = 1 THEN E.w ELSE fl[E.f + 1].w, els |-> IF E.out = 1 THEN <<>> ELSE fl[E.f + 1].els]]
         /\ UNCHANGED <<fl, tw>>
    [] E.op = "write" -> LET i == IF E.i = -1 THEN Len(Bf.els) ELSE E.i IN
         bf' = [bf EXCEPT ![R].els = [Upto(Bf.els, i + 1) EXCEPT ![i + 1] = Norm(E.x, Bf.w)]] /\ UNCHANGED <<fl, tw>>
    [] E.op = "arith" -> bf' = [bf EXCEPT ![R].els[E.i + 1] = NewVal(Bf.els[E.i + 1])] /\ UNCHANGED <<fl, tw>>
    [] E.op = "copyel" -> bf' = [bf EXCEPT ![R].els[E.i + 1] = Norm(bf[E.s + 1].els[E.j + 1], Bf.w)] /\ UNCHANGED <<fl, tw>>
    [] E.op = "reset" -> bf' = [bf EXCEPT ![R].els = <<>>] /\ UNCHANGED <<fl, tw>>
    [] E.op = "close" -> /\ fl' = IF E.rm = 1 THEN [fl EXCEPT ![Bf.f + 1] = NoFile] ELSE Persist(fl, Bf)
                         /\ bf' = [bf EXCEPT ![R].open = FALSE] /\ UNCHANGED tw
    [] E.op = "mkfile" -> fl' = [fl EXCEPT ![E.f + 1] = [ok |-> TRUE, w |-> E.w, els |-> E.els, plain |-> FALSE]] /\ UNCHANGED <<bf, tw>>
    [] E.op = "move" -> /\ fl' = Persist(fl, bf[E.s + 1])
                        /\ bf' = [bf EXCEPT ![E.s + 1] = Bf, ![R] = Dflt] /\ UNCHANGED tw
    [] E.op = "swap" -> bf' = [bf EXCEPT ![R] = bf[E.s + 1], ![E.s + 1] = Bf] /\ UNCHANGED <<fl, tw>>
    [] OTHER -> UNCHANGED <<bf, fl, tw>>
Init == l = 1 /\ bf = <<>> /\ fl = <<>> /\ tw = 0 /\ ResetRegisters
Next == l <= Len(Trace) /\ Judge(l, OK) /\ Upd /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
