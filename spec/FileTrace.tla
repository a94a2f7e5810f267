----------------------------- MODULE FileTrace -----------------------------
(***************************************************************************)
(* Recorded histories of the library's file and stream operations (C09).   *)
(* The same specification judges histories on disk files and on in-RAM     *)
(* files: both are accepted iff they behave as FileSys prescribes.         *)
(***************************************************************************)
EXTENDS TraceBase, FileSys
L == INSTANCE HugeFile WITH HBase <- 16777216
VARIABLES l, fs, st, hf         \* hf: a file of more than 2^31 bytes, and the position of the stream on it
vars == <<l, fs, st, hf>>
E == Trace[l]
Shut == [open |-> FALSE, f |-> 0, wr |-> FALSE, pos |-> 0, app |-> FALSE, fail |-> FALSE]
S == st[E.s + 1]
F == fs[E.f + 1]
SF == fs[S.f + 1]
Good(s) == s.open /\ ~s.fail
T == SeekTarget(S.pos, Len(SF.b), E.off, E.way)
HT == L!HTarget(hf.pos, hf.f.size, E.off, E.neg = 1, E.way)
Rd == ReadAt(SF.b, S.pos, E.n)
OK ==
  CASE E.op \in {"job", "start", "thread", "clear"} -> TRUE
    [] E.op = "openw" -> (E.res = 1) = OpenOutOK(F, E.in = 1, E.trunc = 1, E.app = 1)
    [] E.op = "openr" -> (E.res = 1) = F.ok
    [] E.op = "write" -> (E.res = 1) = (IF E.b = <<>> THEN ~S.fail ELSE Good(S))
    [] E.op = "read" -> IF Good(S) THEN E.b = Rd /\ (E.res = 1) = (Len(Rd) = E.n) ELSE E.b = <<>> /\ E.res = 0
    [] E.op = "seek" -> (E.res = 1) = (Good(S) /\ T >= 0)
    [] E.op = "tell" -> E.res = IF Good(S) THEN S.pos ELSE -1
    [] E.op = "isopen" -> (E.res = 1) = S.open
    [] E.op = "close" -> (E.res = 1) = Good(S)
    [] E.op = "exists" -> \A i \in 1 .. Len(E.res) : (E.res[i] = 1) = F.ok
    [] E.op = "size" -> E.res = Len(F.b)
    [] E.op = "remove" -> (E.res = 1) = F.ok
    [] E.op = "rename" -> (E.res = 1) = F.ok
    [] E.op = "whole" -> E.ok = (IF F.ok THEN 1 ELSE 0) /\ E.b = F.b
    [] E.op = "cross" -> E.res = 0
    [] E.op = "names" -> LET n == E.n ram == n # <<>> /\ n[1] = 64 IN
         /\ (E.isram = 1) = ram /\ E.ram = (IF ram THEN n ELSE <<64>> \o n)
         /\ E.disk = IF ram THEN SubSeq(n, 2, Len(n)) ELSE n
    [] E.op = "store" -> E.res = 1
    [] E.op = "load" -> (E.res = 1) = F.ok /\ (F.ok => E.b = F.b)
    [] E.op \in {"hopen", "hclose"} -> E.res = 1
    [] E.op = "hwrite" -> E.res = 1
    [] E.op = "hseek" -> (E.res = 1) = (HT # <<>>)
    [] E.op = "htell" -> E.res = hf.pos
    [] E.op = "hread" -> E.b = L!HRead(hf.f, hf.pos, E.n)
    [] E.op = "hsize" -> E.res = hf.f.size
    [] OTHER -> FALSE
Set(s) == st' = [st EXCEPT ![E.s + 1] = s]
Upd ==
  CASE E.op \in {"job", "thread"} -> fs' = [i \in 1 .. 5 |-> Missing] /\ st' = [i \in 1 .. 4 |-> Shut]
    [] E.op = "openw" -> LET f2 == OpenOutFile(F, E.in = 1, E.trunc = 1, E.app = 1) IN
         IF E.res = 1 THEN fs' = [fs EXCEPT ![E.f + 1] = f2] /\ Set([open |-> TRUE, f |-> E.f, wr |-> TRUE, pos |-> OpenOutPos(f2, E.ate = 1), app |-> E.app = 1, fail |-> FALSE])
         ELSE fs' = fs /\ Set([Shut EXCEPT !.fail = TRUE])
    [] E.op = "openr" -> fs' = fs /\ Set(IF E.res = 1 THEN [open |-> TRUE, f |-> E.f, wr |-> FALSE, pos |-> IF E.ate = 1 THEN Len(F.b) ELSE 0, app |-> FALSE, fail |-> FALSE] ELSE [Shut EXCEPT !.fail = TRUE])
    [] E.op = "write" ->
         IF Good(S) THEN LET p == IF S.app THEN Len(SF.b) ELSE S.pos IN
           fs' = [fs EXCEPT ![S.f + 1].b = WriteAt(SF.b, p, E.b)] /\ Set([S EXCEPT !.pos = p + Len(E.b)])
         ELSE fs' = fs /\ Set([S EXCEPT !.fail = @ \/ E.b # <<>>])
    [] E.op = "read" -> fs' = fs /\ Set(IF Good(S) THEN [S EXCEPT !.pos = IF Len(Rd) = 0 THEN S.pos ELSE S.pos + Len(Rd), !.fail = Len(Rd) < E.n] ELSE [S EXCEPT !.fail = TRUE])
    [] E.op = "seek" -> fs' = fs /\ Set(IF ~Good(S) THEN [S EXCEPT !.fail = TRUE] ELSE IF T < 0 THEN [S EXCEPT !.fail = TRUE] ELSE [S EXCEPT !.pos = T])
    [] E.op = "clear" -> fs' = fs /\ Set([S EXCEPT !.fail = FALSE])
    [] E.op = "close" -> fs' = fs /\ Set([S EXCEPT !.fail = S.fail \/ ~S.open, !.open = FALSE])
    [] E.op = "remove" -> fs' = [fs EXCEPT ![E.f + 1] = Missing] /\ st' = st
    [] E.op = "rename" -> st' = st /\ fs' = IF ~F.ok \/ E.f = E.g THEN fs ELSE [fs EXCEPT ![E.f + 1] = Missing, ![E.g + 1] = F]
    [] E.op = "store" -> st' = st /\ fs' = [fs EXCEPT ![E.f + 1] = File(E.b)]
    [] OTHER -> UNCHANGED <<fs, st>>
\* mode: 0 new, 1 in and out, 2 append, 3 in and out and ate, 4 in, 5 in and ate
HUpd ==
  CASE E.op = "hopen" -> hf' = LET f == IF E.mode = 0 THEN L!HEmpty ELSE hf.f IN [f |-> f, pos |-> IF E.mode \in {2, 3, 5} THEN f.size ELSE L!PZero, app |-> E.mode = 2]
    [] E.op = "hwrite" -> hf' = LET p == IF hf.app THEN hf.f.size ELSE hf.pos IN [hf EXCEPT !.f = L!HWrite(@, p, E.b), !.pos = L!PAdd(p, L!PFrom(Len(E.b)))]
    [] E.op = "hseek" -> hf' = IF HT = <<>> THEN hf ELSE [hf EXCEPT !.pos = HT]
    [] E.op = "hread" -> hf' = [hf EXCEPT !.pos = L!PAdd(@, L!PFrom(Len(E.b)))]
    [] E.op = "job" -> hf' = [f |-> L!HEmpty, pos |-> L!PZero, app |-> FALSE]
    [] OTHER -> hf' = hf
Init == hf = <<>> /\ l = 1 /\ fs = <<>> /\ st = <<>> /\ ResetRegisters
Next == l <= Len(Trace) /\ Judge(l, OK) /\ Upd /\ HUpd /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
