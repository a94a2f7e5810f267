------------------------------ MODULE HugePos ------------------------------
(* Positions beyond the integers of the model checker: pairs <<high, low>> in base HBase. *)
EXTENDS Integers, Sequences
CONSTANT HBase
PInt(p) == p[1] * HBase + p[2]
PFrom(x) == <<x \div HBase, x % HBase>>
PLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + HBase - b[2]>>
PAdd(a, b) == LET s == a[2] + b[2] IN IF s >= HBase THEN <<a[1] + b[1] + 1, s - HBase>> ELSE <<a[1] + b[1], s>>
PZero == <<0, 0>>
POne == PFrom(1)
PPred(a) == PSub(a, POne)
PSucc(a) == PAdd(a, POne)
PosOK(p) == p[1] >= 0 /\ p[2] >= 0 /\ p[2] < HBase
=============================================================================
