------------------------------- MODULE Limbs --------------------------------
(* 64-bit values as four 16-bit limbs, least significant first. *)
EXTENDS Integers, Sequences
LPow(n) == LET f[k \in 0 .. n] == IF k = 0 THEN 1 ELSE 2 * f[k - 1] IN f[n]
LOf(x) == <<x % 65536, x \div 65536, 0, 0>>
LKeep(w, k) == IF w >= 16 * k THEN 16 ELSE IF w <= 16 * (k - 1) THEN 0 ELSE w - 16 * (k - 1)
LMask(v, w) == [k \in 1 .. 4 |-> v[k] % LPow(LKeep(w, k))]
LCarry(a, b, c) == LET f[k \in 0 .. 4] == IF k = 0 THEN c ELSE (a[k] + b[k] + f[k - 1]) \div 65536 IN f
LAddC(a, b, c) == LET f == LCarry(a, b, c) IN [k \in 1 .. 4 |-> (a[k] + b[k] + f[k - 1]) % 65536]
LNot(a) == [k \in 1 .. 4 |-> 65535 - a[k]]
LAdd(a, b) == LAddC(a, b, 0)
LSub(a, b) == LAddC(a, LNot(b), 1)
LZero == <<0, 0, 0, 0>>
LOne == <<1, 0, 0, 0>>
RECURSIVE LCmpK(_, _, _)
LCmpK(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE LCmpK(a, b, k - 1)
LCmp(a, b) == LCmpK(a, b, 4)
\* x * w for 0 <= x < 2^31 and 0 <= w <= 64
LMulSmall(x, w) == LET a == (x % 65536) * w b == (x \div 65536) * w + a \div 65536 IN <<a % 65536, b % 65536, b \div 65536, 0>>
LSmall(a) == a[3] = 0 /\ a[4] = 0 /\ a[2] < 16384
LInt(a) == a[1] + 65536 * a[2]
=============================================================================
