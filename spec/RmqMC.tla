-------------------------------- MODULE RmqMC -------------------------------
(***************************************************************************)
(* Range minima (C20), for every sequence of length <= N over K values:    *)
(*  - the block-wise rule of BpBase agrees with the definition;            *)
(*  - the super-Cartesian tree: element i is an opening parenthesis, and   *)
(*    before it as many elements are closed as are larger on the stack;    *)
(*    the query algorithm on the parentheses gives the leftmost minimum;   *)
(*  - the extended Cartesian tree (a pair per element around its left      *)
(*    part, a leaf and its right part): the last position of least excess  *)
(*    between the two leaves belongs to the leaf of the leftmost minimum;  *)
(*  - the sparse table: two overlapping windows of a power of two.         *)
(***************************************************************************)
EXTENDS BpBase
CONSTANTS N, K
BSmall == 3
VARIABLES x
Init == x = <<>>
Next == Len(x) < N /\ \E v \in 1 .. K : x' = Append(x, v)
Spec == Init /\ [][Next]_x
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
Lm(a, b) == MinOf({i \in a .. b : \A j \in a .. b : x[i + 1] <= x[j + 1]})       \* the definition
\* --- super-Cartesian tree; st is the stack of values
RECURSIVE Pops(_, _)
Pops(st, v) == IF st # <<>> /\ st[Len(st)] > v THEN 1 + Pops(SubSeq(st, 1, Len(st) - 1), v) ELSE 0
RECURSIVE Sct(_, _)
Sct(i, st) == IF i > Len(x) THEN [k \in 1 .. Len(st) |-> 0]
              ELSE LET c == Pops(st, x[i]) IN [k \in 1 .. c |-> 0] \o <<1>> \o Sct(i + 1, Append(SubSeq(st, 1, Len(st) - c), x[i]))
\* --- extended Cartesian tree of a .. b
RECURSIVE Ect(_, _)
Ect(a, b) == IF a > b THEN <<>> ELSE LET q == Lm(a, b) IN <<1>> \o Ect(a, q - 1) \o <<1, 0>> \o Ect(q + 1, b) \o <<0>>
Excess(s) == [k \in 1 .. Len(s) |-> 2 * Cardinality({j \in 1 .. k : s[j] = 1}) - k]
Match(s, e) == [k \in 1 .. Len(s) |-> IF s[k] = 1 THEN MinOf({j \in k .. Len(s) - 1 : e[j + 1] = e[k] - 1})
                                      ELSE MaxOf({j \in 0 .. k - 2 : s[j + 1] = 1 /\ e[j + 1] = e[k] + 1})]
Opens(s) == SelectSeq([k \in 1 .. Len(s) |-> k - 1], LAMBDA i : s[i + 1] = 1)
Leaves(s) == SelectSeq([k \in 1 .. Len(s) |-> k - 1], LAMBDA i : i > 0 /\ s[i] = 1 /\ s[i + 1] = 0)     \* positions of the 0 of 10
Log(z) == MaxOf({k \in 0 .. 6 : 2 ^ k <= z})
Inv == LET n == Len(x) bm == TLCEval(BlockMin(x))
           s == TLCEval(Sct(1, <<>>)) e == TLCEval(Excess(s)) m == TLCEval(Match(s, e)) o == TLCEval(Opens(s))
           t == TLCEval(Ect(0, n - 1)) f == TLCEval(Excess(t)) lf == TLCEval(Leaves(t)) IN
  /\ Len(s) = 2 * n /\ Len(o) = n /\ Len(t) = 4 * n /\ Len(lf) = n
  /\ \A a, b \in 0 .. n - 1 : a <= b => LET q == Lm(a, b) IN
       /\ \A k \in 0 .. n - 1 : IsLeftMinAt(x, bm, a, b, k) = (k = q)
       /\ LET i == o[a + 1] j == o[b + 1] IN
            q = IF a = b THEN a ELSE IF j < m[i + 1] THEN a
                ELSE LET R == {k \in 1 .. n : m[i + 1] < o[k] /\ o[k] < j /\ m[j + 1] < m[o[k] + 1]} IN IF R = {} THEN b ELSE MinOf(R) - 1
       /\ LET u == lf[a + 1] w == lf[b + 1] z == MaxOf({k \in u .. w : \A y \in u .. w : f[k + 1] <= f[y + 1]}) IN lf[q + 1] = z
       /\ a < b => LET k == Log(b - a) r == b - 2 ^ k + 1 p1 == Lm(a, a + 2 ^ k - 1) p2 == Lm(r, b) IN q = IF x[p1 + 1] <= x[p2 + 1] THEN p1 ELSE p2
=============================================================================
