------------------------------ MODULE LifeTrace ------------------------------
(***************************************************************************)
(* Recorded life cycles (C10, C11): histories of the module Life executed  *)
(* with objects of one class.  A content is known by its fingerprint: the  *)
(* answers of a freshly built object.  After every operation the objects   *)
(* that hold a content are queried again (obs).                            *)
(***************************************************************************)
EXTENDS TraceBase, Life
VARIABLES l, st, vals
vars == <<l, st, vals>>
E == Trace[l]
S == 3
F == 2
Known(v) == v \in DOMAIN vals
O == E.o
St2 == Eff(st, O)
\* every object holding a content answers as a fresh object of that content does
ObsOK(t) == /\ {E.obs[i][1] : i \in 1 .. Len(E.obs)} = {s \in 1 .. S : t.val[s] >= 0}
            /\ \A i \in 1 .. Len(E.obs) : E.obs[i][2] = vals[t.val[E.obs[i][1]]].fp
Bytes(v) == vals[v].len
SumTo(s, n) == LET sum[i \in 0 .. n] == IF i = 0 THEN 0 ELSE sum[i - 1] + Bytes(s[i]) IN sum[n]
OpOK ==
  /\ Pre(st, O)
  /\ ObsOK(St2)
  /\ CASE O[1] = 9 -> LET v == st.val[O[2]] IN E.ret = Bytes(v) /\ E.act = Bytes(v) /\ E.hash = vals[v].hash
       [] O[1] = 11 -> E.good = 1 /\ E.pos = SumTo(st.strm, st.cur + 1)
       [] O[1] = 13 -> LET v == st.val[O[2]] IN E.ret = 1 /\ E.act = Bytes(v) /\ E.hash = vals[v].hash
       [] O[1] = 14 -> E.ret = IF Loads(st, O[3], O[4]) THEN 1 ELSE 0
       [] O[1] = 15 -> E.ret = 0
       [] OTHER -> TRUE
OK ==
  CASE E.op \in {"job", "kind", "start"} -> TRUE
    \* building the same content twice gives the same answers and bytes; contents can be told apart
    [] E.op = "value" -> IF Known(E.v) THEN [fp |-> E.fp, len |-> E.len, hash |-> E.hash] = vals[E.v]
                         ELSE E.ret = E.len /\ \A w \in DOMAIN vals : vals[w].fp # E.fp
    [] E.op \in {OpNames[i] : i \in 1 .. Len(OpNames)} -> OpOK
    [] OTHER -> FALSE
Upd ==
  CASE E.op = "kind" -> vals' = <<>> /\ st' = Fresh(S, F)
    [] E.op = "value" -> UNCHANGED st /\ vals' = (IF Known(E.v) THEN vals ELSE (E.v :> [fp |-> E.fp, len |-> E.len, hash |-> E.hash]) @@ vals)
    [] E.op = "start" -> st' = Fresh(S, F) /\ UNCHANGED vals
    [] Has(E, "o") -> st' = St2 /\ UNCHANGED vals
    [] OTHER -> UNCHANGED <<st, vals>>
Init == l = 1 /\ st = Fresh(S, F) /\ vals = <<>> /\ ResetRegisters
Next == l <= Len(Trace) /\ Judge(l, OK) /\ Upd /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
