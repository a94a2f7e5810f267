----------------------------- MODULE NameMapMC -----------------------------
(***************************************************************************)
(* The table of in-RAM files under concurrent use (C09): every thread      *)
(* works on names of its own, but all share one table.  An operation that  *)
(* changes the shape of the table is not atomic (it is begun, and ended    *)
(* later); a thread in the table while another one changes its shape may   *)
(* see anything.  With Lock = TRUE the operations hold the lock, as the    *)
(* code does; the invariant says that no thread ever meets a shape change  *)
(* and that each thread sees on its names the effects of its own           *)
(* operations only.  NameMapMC_nolock.cfg is expected to fail.             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Threads, Lock, MaxOps
VARIABLES table, own, pc, cur, holder, ops, torn
vars == <<table, own, pc, cur, holder, ops, torn>>
Names == Threads \X {1, 2}
None == 0
Init == /\ table = [n \in Names |-> None] /\ own = [n \in Names |-> None]
        /\ pc = [t \in Threads |-> "idle"] /\ cur = [t \in Threads |-> <<>>] /\ holder = None /\ ops = [t \in Threads |-> 0] /\ torn = FALSE
Begin(t, op) == /\ pc[t] = "idle" /\ ops[t] < MaxOps /\ cur' = [cur EXCEPT ![t] = op]
                /\ pc' = [pc EXCEPT ![t] = IF Lock THEN "lock" ELSE "in"] /\ ops' = [ops EXCEPT ![t] = @ + 1]
                /\ UNCHANGED <<table, own, holder, torn>>
Acquire(t) == /\ pc[t] = "lock" /\ holder = None /\ holder' = t /\ pc' = [pc EXCEPT ![t] = "in"] /\ UNCHANGED <<table, own, cur, ops, torn>>
Shape(op) == op[1] \in {"store", "remove", "rename"}
InTable(t) == pc[t] \in {"in", "half"}
\* step one: look up; step two: apply and leave
Half(t) == /\ pc[t] = "in" /\ pc' = [pc EXCEPT ![t] = "half"]
           /\ torn' = (torn \/ \E u \in Threads \ {t} : InTable(u) /\ (Shape(cur[t]) \/ Shape(cur[u])))
           /\ UNCHANGED <<table, own, cur, holder, ops>>
Apply(f, op) == CASE op[1] = "store" -> [f EXCEPT ![op[2]] = op[3]]
                  [] op[1] = "remove" -> [f EXCEPT ![op[2]] = None]
                  [] op[1] = "rename" -> IF f[op[2]] = None \/ op[2] = op[3] THEN f ELSE [f EXCEPT ![op[3]] = f[op[2]], ![op[2]] = None]
                  [] OTHER -> f
End(t) == /\ pc[t] = "half" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ holder' = (IF Lock THEN None ELSE holder)
          /\ table' = Apply(table, cur[t]) /\ own' = Apply(own, cur[t]) /\ UNCHANGED <<cur, ops, torn>>
Next == \E t \in Threads :
  \/ \E k \in {1, 2} : \/ Begin(t, <<"store", <<t, k>>, k>>) \/ Begin(t, <<"remove", <<t, k>>>>) \/ Begin(t, <<"size", <<t, k>>>>)
                       \/ \E j \in {1, 2} : Begin(t, <<"rename", <<t, k>>, <<t, j>>>>)
  \/ Acquire(t) \/ Half(t) \/ End(t)
Spec == Init /\ [][Next]_vars
NoTearing == ~torn
Exclusive == Cardinality({t \in Threads : InTable(t)}) <= 1
Isolated == \A n \in Names : table[n] = own[n]
=============================================================================
