---------------------------- MODULE QueryTrace ----------------------------
(***************************************************************************)
(* C26: histories of threads that ask one object at the same time, recorded*)
(* from the real code, against the contract of module Query.               *)
(*   kind   a class;  share v: a fresh object with content v is shared     *)
(*   alone  answer a to question q about content v, without other threads  *)
(*   call   thread t asks;  ret  it gets the answer a                      *)
(* A thread that crashes, or a data race that the sanitizer reports, ends  *)
(* the trace with an event no action accepts.                              *)
(***************************************************************************)
EXTENDS TraceBase, Query
VARIABLES l, alone, pend
vars == <<l, alone, pend>>
T == 1 .. 8
Idle == [t \in T |-> None]
Init == ResetRegisters /\ l = 1 /\ alone = << >> /\ pend = Idle
Ev == Trace[l]
Kind == Ev.op \in {"job", "kind"} /\ alone' = << >> /\ pend' = Idle
Share == Ev.op = "share" /\ UNCHANGED <<alone, pend>>
Alone == /\ Ev.op = "alone"
         /\ LET k == <<Ev.v, Ev.q>> IN
            /\ Judge(l, k \notin DOMAIN alone \/ alone[k] = Ev.a)
            /\ alone' = (k :> Ev.a) @@ alone
         /\ UNCHANGED pend
CallE == /\ Ev.op = "call"
         /\ LET p2 == [pend EXCEPT ![Ev.t] = <<Ev.v, Ev.q>>] IN
            /\ Judge(l, Call(pend, Ev.t, <<Ev.v, Ev.q>>, p2))
            /\ pend' = p2
         /\ UNCHANGED alone
RetE == /\ Ev.op = "ret"
        /\ LET p2 == [pend EXCEPT ![Ev.t] = None] IN
           /\ Judge(l, Ret(alone, pend, Ev.t, Ev.a, p2))
           /\ pend' = p2
        /\ UNCHANGED alone
Bad == /\ Ev.op \notin {"job", "kind", "share", "alone", "call", "ret"}
       /\ Report(l) /\ UNCHANGED <<alone, pend>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (Kind \/ Share \/ Alone \/ CallE \/ RetE \/ Bad)
Spec == Init /\ [][Next]_vars
=============================================================================
