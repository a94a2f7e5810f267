------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* An object that has been built, asked by several threads.                *)
(*                                                                         *)
(* The contract: the object is a function from questions to answers; a     *)
(* call that starts in some state returns that answer whatever the other   *)
(* threads do (so every history of calls and returns is linearizable, in   *)
(* any order).  Threads that work on objects of their own get what they    *)
(* get when they are alone.                                                *)
(*                                                                         *)
(* State of the contract: pend[t], the question thread t waits for.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences
None == <<0, 0>>
\* a question is <<v, q>>: question q about content v; alone: [questions -> answers]
Call(pend, t, qu, pend2) == pend[t] = None /\ pend2 = [pend EXCEPT ![t] = qu]
Ret(alone, pend, t, a, pend2) == /\ pend[t] # None
                                 /\ pend[t] \in DOMAIN alone
                                 /\ a = alone[pend[t]]
                                 /\ pend2 = [pend EXCEPT ![t] = None]
=============================================================================
