------------------------------ MODULE SetTrace ------------------------------
(***************************************************************************)
(* Recorded histories of the dynamic successor dictionary and the sorted   *)
(* stacks, and recorded answers of the static neighbour dictionary and of  *)
(* the inverse-permutation structure (C22).                                *)
(* The abstract state is a set S over the universe 0..n-1 and a sequence   *)
(* st (the stack).  Where there is no answer the dynamic dictionary gives  *)
(* its size.  "via" copies, moves, swaps, or stores and loads the object:  *)
(* it changes nothing.                                                     *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES l, at, n, S, st
vars == <<l, at, n, S, st>>
E == Trace[l]
\* ---- dynamic dictionary
NextOk(X, i, r) == \/ r = n /\ \A s \in X : s < i
                   \/ r < n /\ r \in X /\ r >= i /\ \A s \in X : s < i \/ s >= r
PrevOk(X, i, r) == \/ r = n /\ \A s \in X : s > i
                   \/ r < n /\ r \in X /\ r <= i /\ \A s \in X : s > i \/ s <= r
In(X, i) == IF i \in X THEN 1 ELSE 0
S2 == CASE E.op = "ins" -> S \cup {E.x}
        [] E.op = "del" -> S \ {E.x}
        [] E.op = "assign" -> IF E.y \in S THEN S \cup {E.x} ELSE S \ {E.x}
        [] E.op = "fill" -> S \cup {E.a + E.d * k : k \in 0 .. E.c - 1}
        [] E.op = "thin" -> S \ {E.a + E.d * k : k \in 0 .. E.c - 1}
        [] E.op \in {"clear", "dynamic"} -> {}
        [] OTHER -> S
AskOk(X) == /\ E.size = n
            /\ \A k \in 1 .. Len(E.q) : /\ NextOk(X, E.q[k], E.next[k]) /\ PrevOk(X, E.q[k], E.prev[k])
                                        /\ E.get[k] = In(X, E.q[k]) /\ E.ref[k] = In(X, E.q[k])
\* every position: the answers follow from the neighbour's
AllOk(X) == /\ E.size = n /\ Len(E.next) = n /\ Len(E.prev) = n /\ Len(E.get) = n
            /\ \A i \in 1 .. n : /\ E.get[i] = In(X, i - 1)
                                 /\ E.next[i] = IF E.get[i] = 1 THEN i - 1 ELSE IF i = n THEN n ELSE E.next[i + 1]
                                 /\ E.prev[i] = IF E.get[i] = 1 THEN i - 1 ELSE IF i = 1 THEN n ELSE E.prev[i - 1]
CmpOk == /\ E.eq = (IF In(S, E.x) = In(S, E.y) THEN 1 ELSE 0)
         /\ E.lt = (IF In(S, E.x) < In(S, E.y) THEN 1 ELSE 0)
\* ---- stacks
Last(s) == s[Len(s)]
T2 == CASE E.op = "push" -> Append(st, E.x)
        [] E.op = "pop" -> IF st = <<>> THEN st ELSE SubSeq(st, 1, Len(st) - 1)
        [] E.op = "stack" -> <<>>
        [] OTHER -> st
Shows(s) == /\ E.size = Len(s) /\ E.empty = (IF s = <<>> THEN 1 ELSE 0)
            /\ (s # <<>> => E.top = Last(s))
\* what push and pop of the stack with duplicates say: the top is another one now
Changed(a, b) == IF (IF a = <<>> THEN -1 ELSE Last(a)) # (IF b = <<>> THEN -1 ELSE Last(b)) THEN 1 ELSE 0
RetOk == E.ret = -1 \/ E.ret = (IF E.op = "pop" /\ st = <<>> THEN 0
                                ELSE IF E.op = "pop" /\ Len(st) = 1 THEN 1 ELSE Changed(st, T2))
\* ---- static structures
D == Trace[at]
RankOk(i, r) == /\ r >= 0 /\ r <= Len(D.pos)
                /\ (r > 0 => D.pos[r] < i) /\ (r < Len(D.pos) => D.pos[r + 1] >= i)
PrevAt(i, r) == r > 0 /\ D.pos[r] <= i /\ (r < Len(D.pos) => D.pos[r + 1] > i)      \* r: number of ones at or before i
DictOk == /\ E.size = D.n /\ E.ones = Len(D.pos)
          /\ Len(E.sel) = Len(E.qs) /\ \A k \in 1 .. Len(E.qs) : E.sel[k] = D.pos[E.qs[k]]
          /\ Len(E.rank) = Len(E.q) /\ \A k \in 1 .. Len(E.q) : RankOk(E.q[k], E.rank[k])
          \* -2: there is none; otherwise E.rank tells which one it has to be
          /\ \A k \in 1 .. Len(E.q) :
               LET r == E.rank[k] i == E.q[k] here == r < Len(D.pos) /\ D.pos[r + 1] = i IN
               i < D.n => /\ E.next[k] = (IF r < Len(D.pos) THEN D.pos[r + 1] ELSE -2)
                          /\ E.prev[k] = (IF here THEN i ELSE IF r > 0 THEN D.pos[r] ELSE -2)
InvOk == /\ E.size = Len(D.v) /\ Len(E.inv) = Len(D.v)
         /\ \A i \in 1 .. Len(D.v) : E.inv[i] \in 0 .. Len(D.v) - 1 /\ D.v[E.inv[i] + 1] = i - 1
         /\ E.iter = E.inv
OK == CASE E.op \in {"job", "stack", "dynamic", "bits", "perm"} -> TRUE
        [] E.op = "ask" -> AskOk(S)
        [] E.op = "all" -> AllOk(S)
        [] E.op = "cmp" -> CmpOk
        [] E.op \in {"ins", "del", "assign", "fill", "thin", "clear"} -> E.size = n
        [] E.op = "setvia" -> E.size = n
        [] E.op \in {"push", "pop"} -> Shows(T2) /\ RetOk
        [] E.op = "via" -> Shows(st)
        [] E.op = "drain" -> E.tops = [i \in 1 .. Len(st) |-> st[Len(st) + 1 - i]] /\ E.sizes = [i \in 1 .. Len(st) |-> Len(st) + 1 - i]
        [] E.op = "dict" -> DictOk
        [] E.op = "inverse" -> InvOk
        [] OTHER -> FALSE
Init == l = 1 /\ at = 1 /\ n = 0 /\ S = {} /\ st = <<>> /\ ResetRegisters
Next == /\ l <= Len(Trace) /\ Judge(l, OK) /\ l' = l + 1
        /\ at' = IF E.op \in {"bits", "perm"} THEN l ELSE at
        /\ n' = IF E.op = "dynamic" THEN E.n ELSE n
        /\ S' = S2 /\ st' = T2
Spec == Init /\ [][Next]_vars
=============================================================================
