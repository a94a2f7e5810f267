------------------------------ MODULE MapTrace ------------------------------
(***************************************************************************)
(* Recorded histories of int_vector_mapper (C08): a mapper shows the       *)
(* sequence of its file; a closed file holds exactly what was shown last.  *)
(***************************************************************************)
EXTENDS TraceBase, IntVec
LL == INSTANCE HugeVec
VARIABLES l, mp, fl, tw
vars == <<l, mp, fl, tw>>
E == Trace[l]
NoMap == [open |-> FALSE, f |-> 0, ro |-> FALSE, del |-> FALSE]
NoFile == [ok |-> FALSE, v |-> [w |-> 1, b |-> <<>>], plain |-> FALSE]
R == E.r + 1
F == mp[R].f
V == fl[F].v
A == [w |-> E.a[1], b |-> E.a[2]]
WF(d) == /\ d[1] \in 1 .. 64 /\ (tw > 0 => d[1] = tw) /\ d[3] = Len(d[2]) \div d[1] /\ d[4] = Len(d[2]) /\ d[6] = 1
         /\ Len(d[2]) = 0 => d[5] = 1
         /\ Len(d[2]) >= d[1] => d[5] = 0
FileLen(f) == IF f.plain THEN (Len(f.v.b) + 7) \div 8 ELSE (IF tw = 0 THEN 9 ELSE 8) + 8 * ((Len(f.v.b) + 63) \div 64)
Els(v) == [i \in 1 .. N(v) |-> Elem(v, i - 1)]
Writable == mp[R].open /\ ~mp[R].ro
Pushed(v, a, x) == a.w = v.w /\ Len(a.b) = Len(v.b) + v.w /\ SameBits(v, a, Len(v.b)) /\ Elem(a, N(a) - 1) = x
OK ==
  CASE E.op \in {"job", "start", "create", "open", "move"} -> TRUE
    [] E.op = "close" -> TRUE
    [] E.op = "show" -> WF(E.a) /\ A = V /\ E.fn = 1
    [] E.op = "set" -> WF(E.a) /\ Writable /\ A = ElemSet(V, E.i, E.x)
    [] E.op = "setint" -> WF(E.a) /\ A = [V EXCEPT !.b = SetBits(V.b, E.i, E.len, E.x)]
    [] E.op = "push" -> WF(E.a) /\ Pushed(V, A, E.x)
    [] E.op = "resize" -> WF(E.a) /\ ResizeOK(V, A, E.n)
    [] E.op = "width" -> WF(E.a) /\ A = [w |-> E.w, b |-> V.b]
    [] E.op = "flip" -> WF(E.a) /\ A.w = V.w /\ Len(A.b) = Len(V.b) /\ \A k \in 1 .. Len(V.b) : A.b[k] = 1 - V.b[k]
    [] E.op = "read" -> E.res = Els(V) /\ E.it = E.res
    [] E.op = "cmp" -> E.res = <<1, 1, 1, 1, 1>>
    [] E.op = "absent" -> E.res = 1
    [] E.op = "file" -> LET f == fl[E.f + 1] IN
         IF f.ok THEN E.len = FileLen(f) /\ E.ok = 1 /\ E.b = f.v.b /\ E.w = f.v.w /\ (Has(E, "buf") => E.buf = Els(f.v))
         ELSE E.len = -1
    [] E.op = "huge" -> LL!HugeOK(E)
    [] OTHER -> FALSE
Drop(files, p) == IF p.open /\ p.del THEN [files EXCEPT ![p.f] = NoFile] ELSE files
Upd ==
  CASE E.op = "job" -> mp' = [i \in 1 .. 3 |-> NoMap] /\ fl' = [i \in 1 .. 5 |-> NoFile] /\ tw' = 0
    [] E.op = "start" -> tw' = E.tw /\ UNCHANGED <<mp, fl>>
    [] E.op = "create" -> fl' = [fl EXCEPT ![E.f + 1] = [ok |-> TRUE, v |-> [w |-> E.w, b |-> E.b], plain |-> E.plain = 1]] /\ UNCHANGED <<mp, tw>>
    [] E.op = "open" -> mp' = [mp EXCEPT ![R] = [open |-> TRUE, f |-> E.f + 1, ro |-> E.ro = 1, del |-> E.del = 1]] /\ UNCHANGED <<fl, tw>>
    [] E.op = "close" -> fl' = Drop(fl, mp[R]) /\ mp' = [mp EXCEPT ![R] = NoMap] /\ UNCHANGED tw
    [] E.op = "move" -> fl' = Drop(fl, mp[E.s + 1]) /\ mp' = [mp EXCEPT ![E.s + 1] = mp[R], ![R] = NoMap] /\ UNCHANGED tw
    [] Has(E, "a") -> fl' = [fl EXCEPT ![F].v = A] /\ UNCHANGED <<mp, tw>>
    [] OTHER -> UNCHANGED <<mp, fl, tw>>
Init == l = 1 /\ mp = <<>> /\ fl = <<>> /\ tw = 0 /\ ResetRegisters
Next == l <= Len(Trace) /\ Judge(l, OK) /\ Upd /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
