------------------------------- MODULE SizeMC -------------------------------
(***************************************************************************)
(* How a structure tree grows while an object is serialised (C24): a       *)
(* member enters (or re-enters: nodes of the same name are merged) a node  *)
(* below that of its owner, writes bytes and members, and adds what it     *)
(* wrote to its node when it leaves.  The same object may be written again *)
(* into the same tree.  Invariant: outside of a call every node accounts   *)
(* for its children and the root for all bytes.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names, MaxDepth, MaxSteps
VARIABLES size, stack, bytes, steps
vars == <<size, stack, bytes, steps>>
Init == size = << >> /\ stack = <<>> /\ bytes = 0 /\ steps = 0
Paths == DOMAIN size
Put(p, k) == [q \in Paths \cup {p} |-> (IF q \in Paths THEN size[q] ELSE 0) + (IF q = p THEN k ELSE 0)]
Cur == stack[Len(stack)]
Enter(n) == /\ Len(stack) < MaxDepth
            /\ LET p == (IF stack = <<>> THEN <<>> ELSE Cur.path) \o <<n>> IN size' = Put(p, 0) /\ stack' = Append(stack, [path |-> p, w |-> 0])
            /\ UNCHANGED bytes
Write(k) == stack # <<>> /\ stack' = [stack EXCEPT ![Len(stack)].w = @ + k] /\ bytes' = bytes + k /\ UNCHANGED size
Leave == /\ stack # <<>> /\ size' = Put(Cur.path, Cur.w)
         /\ LET r == SubSeq(stack, 1, Len(stack) - 1) IN stack' = (IF r = <<>> THEN r ELSE [r EXCEPT ![Len(r)].w = @ + Cur.w])
         /\ UNCHANGED bytes
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ (\E n \in Names : Enter(n)) \/ (\E k \in {1, 8} : Write(k)) \/ Leave
Spec == Init /\ [][Next]_vars
RECURSIVE SumS(_)
SumS(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN size[p] + SumS(S \ {p})
Kids(p) == {q \in Paths : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}
Accounted == stack = <<>> => /\ \A p \in Paths : size[p] >= SumS(Kids(p))
                             /\ SumS(Kids(<<>>)) = bytes
=============================================================================
