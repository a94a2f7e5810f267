------------------------------ MODULE HeapTrace ------------------------------
(***************************************************************************)
(* Recorded histories of the large-page allocator (C25).  Offsets are      *)
(* relative to the reserved area; -1 null, -2 outside, -3 request refused. *)
(* Every block is filled when it is handed out; "cont" is what the other   *)
(* blocks hold after each operation.                                       *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES l, h
vars == <<l, h>>
E == Trace[l]
\* live: slot -> [off, n, c]; once: the largest request satisfied; top: the reservation
New(t) == [total |-> t, top |-> 0, once |-> 0, live |-> <<>>]
Live == DOMAIN h.live
Others == Live \ {E.s}
Refused == E.off = -3
ContOK(S) == /\ {E.cont[i][1] : i \in 1 .. Len(E.cont)} = S /\ Len(E.cont) = Cardinality(S)
             /\ \A i \in 1 .. Len(E.cont) : E.cont[i][2] = h.live[E.cont[i][1]].c
Apart(o, n, s) == LET x == h.live[s] IN o + n <= x.off \/ x.off + x.n <= o \/ n = 0 \/ x.n = 0
Placed == /\ E.off >= 0 /\ E.off % 8 = 0 /\ E.off + E.n <= E.top /\ E.top <= h.total
          /\ \A s \in Others : Apart(E.off, E.n, s) /\ h.live[s].off # E.off
\* nothing is live: what was satisfied once is satisfied again within the same reservation
Again == h.top > 0 /\ Others = {} /\ E.s \notin Live /\ E.n <= h.once => ~Refused /\ E.top = h.top
\* the first request of an area with plenty of room
Plenty == h.top = 0 /\ E.n + 64 <= h.total => ~Refused
GetOK == IF Refused THEN Again /\ Plenty /\ ContOK(Live) ELSE Placed /\ Again /\ ContOK(Others)
OK == CASE E.op \in {"job", "heap", "stage"} -> TRUE
        [] E.op = "alloc" -> E.s \notin Live /\ GetOK
        [] E.op = "realloc" -> GetOK /\ (~Refused => E.pre = E.post)
        [] E.op = "free" -> E.s \in Live /\ ContOK(Others) /\ E.top <= h.total
        [] E.op = "objects" -> E.plain = E.pages /\ E.kept = 1 /\ E.inside = 1
        [] OTHER -> FALSE
Set(s, r) == (s :> r) @@ h.live
Del(s) == [x \in Live \ {s} |-> h.live[x]]
H2 == CASE E.op = "heap" -> New(E.total)
        [] E.op \in {"alloc", "realloc"} -> IF Refused THEN h ELSE [h EXCEPT !.top = E.top, !.once = IF E.n > @ THEN E.n ELSE @, !.live = Set(E.s, [off |-> E.off, n |-> E.n, c |-> E.wrote])]
        [] E.op = "free" -> [h EXCEPT !.top = E.top, !.live = Del(E.s)]
        [] OTHER -> h
Init == l = 1 /\ h = New(0) /\ ResetRegisters
Next == l <= Len(Trace) /\ Judge(l, OK) /\ h' = H2 /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
