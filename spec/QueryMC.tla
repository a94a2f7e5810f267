------------------------------ MODULE QueryMC ------------------------------
(***************************************************************************)
(* Design model: how the classes of the library answer a constant query,   *)
(* step by step, and what threads that ask at the same time can see.       *)
(*                                                                         *)
(* A query decodes Blocks[q] into a scratch buffer, cell by cell, and then *)
(* reads the answer off the buffer (csa_sada decodes psi values between    *)
(* two samples this way).  The buffer is                                   *)
(*   "local"  a variable of the call,                                      *)
(*   "member" a mutable member of the object, filled and read unprotected, *)
(*   "locked" a mutable member, used inside a critical section,            *)
(*   "memo"   a pair of mutable members (last question, last answer) read  *)
(*            and written without protection.                              *)
(* Builders make an object of their own through a temporary file named by  *)
(*   "own"    a process wide counter that hands out every number once,     *)
(*   "pid"    the process id, the same for all threads.                    *)
(* Answers and absence of data races are checked for the designs of        *)
(* Designs and Names; the other designs fail (spec/QueryBad.cfg).          *)
(***************************************************************************)
EXTENDS Query, FiniteSets, TLC
CONSTANTS Threads, Qs, Cells, Designs, Names, MaxCalls
VARIABLES design, naming, pc, pend, cell, loc, shm, lock, calls, answers, file, fname, next, writing
vars == <<design, naming, pc, pend, cell, loc, shm, lock, calls, answers, file, fname, next, writing>>
Build == 9
Blocks(q) == [c \in 1 .. Cells |-> 10 * q + c]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Answer(q) == IF q = Build THEN 77 ELSE Sum(Blocks(q))
Alone == [x \in {<<1, q>> : q \in Qs} \cup {<<2, Build>>} |-> Answer(x[2])]
Zero == [c \in 1 .. Cells |-> 0]
Init == /\ design \in Designs /\ naming \in Names
        /\ pc = [t \in Threads |-> "idle"] /\ pend = [t \in Threads |-> None]
        /\ cell = [t \in Threads |-> 1] /\ loc = [t \in Threads |-> Zero]
        /\ shm = Zero /\ lock = 0 /\ calls = [t \in Threads |-> 0]
        /\ answers = {} /\ file = [n \in 0 .. Cardinality(Threads) * MaxCalls |-> 0] /\ fname = [t \in Threads |-> 0] /\ next = 1
        /\ writing = {}
\* a question asked of the shared object, or an object built by the thread itself
Ask(t, q) == /\ pc[t] = "idle" /\ calls[t] < MaxCalls
             /\ calls' = [calls EXCEPT ![t] = @ + 1]
             /\ Call(pend, t, IF q = Build THEN <<2, Build>> ELSE <<1, q>>, pend')
             /\ cell' = [cell EXCEPT ![t] = 1] /\ loc' = [loc EXCEPT ![t] = Zero]
             /\ pc' = [pc EXCEPT ![t] = IF q = Build THEN "name" ELSE IF design = "locked" THEN "acquire" ELSE IF design = "memo" THEN "look" ELSE "fill"]
             /\ UNCHANGED <<design, naming, shm, lock, answers, file, fname, next, writing>>
Q(t) == pend[t][2]
Acquire(t) == /\ pc[t] = "acquire" /\ lock = 0 /\ lock' = t
              /\ pc' = [pc EXCEPT ![t] = "fill"]
              /\ UNCHANGED <<design, naming, pend, cell, loc, shm, calls, answers, file, fname, next, writing>>
\* accesses to unprotected shared memory take two steps, so that overlaps show (a data race)
Shared == design \in {"member", "memo"}
Fill(t) == /\ pc[t] = "fill" /\ cell[t] <= Cells
           /\ IF design = "local" \/ design = "memo"
              THEN /\ loc' = [loc EXCEPT ![t] = [@ EXCEPT ![cell[t]] = 10 * Q(t) + cell[t]]]
                   /\ cell' = [cell EXCEPT ![t] = @ + 1]
                   /\ UNCHANGED <<shm, writing>>
              ELSE IF Shared /\ <<t, cell[t]>> \notin writing
              THEN writing' = writing \cup {<<t, cell[t]>>} /\ UNCHANGED <<shm, cell, loc>>
              ELSE /\ shm' = [shm EXCEPT ![cell[t]] = 10 * Q(t) + cell[t]]
                   /\ cell' = [cell EXCEPT ![t] = @ + 1]
                   /\ writing' = writing \ {<<t, cell[t]>>}
                   /\ UNCHANGED loc
           /\ UNCHANGED <<design, naming, pc, pend, lock, calls, answers, file, fname, next>>
Filled(t) == /\ pc[t] = "fill" /\ cell[t] > Cells
             /\ pc' = [pc EXCEPT ![t] = IF design = "memo" THEN "keep" ELSE "read"]
             /\ cell' = [cell EXCEPT ![t] = 1]
             /\ UNCHANGED <<design, naming, pend, loc, shm, lock, calls, answers, file, fname, next, writing>>
Read(t) == /\ pc[t] = "read"
           /\ answers' = {<<t, calls[t], Q(t), Sum(IF design \in {"local", "memo"} THEN loc[t] ELSE shm)>>}
           /\ pc' = [pc EXCEPT ![t] = "done"]
           /\ lock' = IF lock = t THEN 0 ELSE lock
           /\ UNCHANGED <<design, naming, pend, cell, loc, shm, calls, file, fname, next, writing>>
\* memo: shm[1] is the last question, shm[2] its answer
Look(t) == /\ pc[t] = "look"
           /\ IF shm[1] = Q(t) THEN pc' = [pc EXCEPT ![t] = "hit"] ELSE pc' = [pc EXCEPT ![t] = "fill"]
           /\ UNCHANGED <<design, naming, pend, cell, loc, shm, lock, calls, answers, file, fname, next, writing>>
Hit(t) == /\ pc[t] = "hit"
          /\ answers' = {<<t, calls[t], Q(t), shm[2]>>}
          /\ pc' = [pc EXCEPT ![t] = "done"]
          /\ UNCHANGED <<design, naming, pend, cell, loc, shm, lock, calls, file, fname, next, writing>>
Keep(t) == /\ pc[t] = "keep"
           /\ IF cell[t] = 1 THEN shm' = [shm EXCEPT ![1] = Q(t)] /\ cell' = [cell EXCEPT ![t] = 2] /\ UNCHANGED pc
              ELSE shm' = [shm EXCEPT ![2] = Answer(Q(t))] /\ pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED cell
           /\ UNCHANGED <<design, naming, pend, loc, lock, calls, answers, file, fname, next, writing>>
\* building: pick a name, write the file, read it
Name(t) == /\ pc[t] = "name"
           /\ fname' = [fname EXCEPT ![t] = IF naming = "own" THEN next ELSE 0]
           /\ next' = next + 1
           /\ pc' = [pc EXCEPT ![t] = "write"]
           /\ UNCHANGED <<design, naming, pend, cell, loc, shm, lock, calls, answers, file, writing>>
Write(t) == /\ pc[t] = "write" /\ file' = [file EXCEPT ![fname[t]] = 77]
            /\ pc' = [pc EXCEPT ![t] = "load"]
            /\ UNCHANGED <<design, naming, pend, cell, loc, shm, lock, calls, answers, fname, next, writing>>
Load(t) == /\ pc[t] = "load"
           /\ answers' = {<<t, calls[t], Build, file[fname[t]]>>}
           /\ file' = [file EXCEPT ![fname[t]] = 0]       \* and removes it
           /\ pc' = [pc EXCEPT ![t] = "done"]
           /\ UNCHANGED <<design, naming, pend, cell, loc, shm, lock, calls, fname, next, writing>>
Done(t) == /\ pc[t] = "done"
           /\ pend' = [pend EXCEPT ![t] = None]
           /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<design, naming, cell, loc, shm, lock, calls, answers, file, fname, next, writing>>
Finished == /\ \A t \in Threads : pc[t] = "idle" /\ calls[t] = MaxCalls
            /\ UNCHANGED vars
Next == \/ \E t \in Threads : \/ \E q \in Qs \cup {Build} : Ask(t, q)
                              \/ Acquire(t) \/ Fill(t) \/ Filled(t) \/ Read(t) \/ Look(t) \/ Hit(t) \/ Keep(t)
                              \/ Name(t) \/ Write(t) \/ Load(t) \/ Done(t)
        \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every call returns the answer it gets when it is alone: the step that returns is a Ret of the contract
SameAsAlone == \A a \in answers : a[4] = Alone[IF a[3] = Build THEN <<2, Build>> ELSE <<1, a[3]>>]
\* no two threads are inside accesses to one cell of unprotected memory
NoRace == \A x, y \in writing : x[2] = y[2] => x[1] = y[1]
\* a thread that waits gets its answer
Served == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================
