------------------------------- MODULE BitsMC -------------------------------
(***************************************************************************)
(* Mechanism model of the broadword tricks on words of W bits (W even) and *)
(* of the multi-limb arithmetic: every word / operand pair is one state.   *)
(* The tricks are the ones of bits.hpp and uint256_t.hpp; the invariants   *)
(* equate them with the definitions in Bits.                               *)
(***************************************************************************)
EXTENDS Bits
CONSTANTS W, L      \* word size of the bit tricks; limb size of the wide integers
P(n) == LET f[k \in 0 .. n] == IF k = 0 THEN 1 ELSE 2 * f[k - 1] IN f[n]
BitsOf(x, n) == [k \in 1 .. n |-> (x \div P(k - 1)) % 2]
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE s[1] + 2 * Val(Tail(s))
VARIABLES kind, x, y
vars == <<kind, x, y>>
Init == \/ kind = "word" /\ x \in 0 .. P(W) - 1 /\ y \in {0, 1}
        \/ kind = "wide" /\ x \in 0 .. P(4 * L) - 1 /\ y \in 0 .. P(4 * L) - 1
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* --- extraction of disjoint 11 blocks (cnt11, sel11, hi11)
V2(a) == Val(a) % P(W)
And2(a, b) == Val(And(BitsOf(a, W), BitsOf(b, W)))
Or2(a, b) == Val(Or(BitsOf(a, W), BitsOf(b, W)))
Xor2(a, b) == Val([k \in 1 .. W |-> (BitsOf(a, W)[k] + BitsOf(b, W)[k]) % 2])
M5 == Val([k \in 1 .. W |-> k % 2])
Ex(v, c) ==
  LET ex11 == And2(And2(v, v \div 2), M5)
      both == Or2(ex11, (ex11 * 2) % P(W))
      ex10or01 == Xor2(both, v)
      t == (both + Or2(And2((ex10or01 * 2) % P(W), M5), c)) % P(W)
      mark == And2(t, Or2(And2(ex10or01, M5), ex11))
      cnt == Or2(ex11, And2(t, And2(ex10or01, M5)))
      cout == B(ex10or01 \div P(W - 1) = 1 \/ t < both)
  IN [mark |-> (ex11 + mark) % P(W), cnt |-> cnt, c |-> cout]
ElevenTrick == kind = "word" =>
  LET d == TLCEval(Elevens(BitsOf(x, W), y)) e == TLCEval(Ex(x, y)) IN
    /\ Cardinality({k \in 1 .. W : BitsOf(e.cnt, W)[k] = 1}) = Len(d.t)
    /\ e.c = d.c
    /\ Ones(BitsOf(e.mark, W)) = d.t
\* --- limbs of L, L and 2L bits: addition, and subtraction through the two's complement
Lo(v) == v % P(L)
Mid(v) == (v \div P(L)) % P(L)
Hi(v) == v \div P(2 * L)
Combine(l, m, h) == (l % P(L)) + P(L) * (m % P(L)) + P(2 * L) * (h % P(2 * L))
LimbAdd(a, b) == LET l == Lo(a) + Lo(b) m == Mid(a) + Mid(b) + l \div P(L) IN Combine(l, m, Hi(a) + Hi(b) + m \div P(L))
LimbSub(a, b) == LET l == Lo(a) + (P(L) - 1 - Lo(b)) + 1
                     m == Mid(a) + (P(L) - 1 - Mid(b)) + l \div P(L)
                 IN Combine(l, m, Hi(a) + (P(2 * L) - 1 - Hi(b)) + m \div P(L))
WideTrick == kind = "wide" =>
  /\ LimbAdd(x, y) = (x + y) % P(4 * L) /\ LimbSub(x, y) = (x + P(4 * L) - y) % P(4 * L)
  /\ Val(Add(BitsOf(x, 4 * L), BitsOf(y, 4 * L))) = (x + y) % P(4 * L)
  /\ Val(Sub(BitsOf(x, 4 * L), BitsOf(y, 4 * L))) = (x + P(4 * L) - y) % P(4 * L)
=============================================================================
