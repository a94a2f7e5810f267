------------------------------- MODULE Monitor ------------------------------
(***************************************************************************)
(* The memory monitor (C24): what its record has to look like.             *)
(* An event record is a sequence of <<time, usage>>; an interval is given  *)
(* by its first and last time.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
First(a) == a[1][1]
Last(a) == a[Len(a)][1]
Ordered(a) == Len(a) > 0 /\ \A i \in 1 .. Len(a) - 1 : a[i][1] <= a[i + 1][1]
Usages(a) == {a[i][2] : i \in 1 .. Len(a)}
Disjoint(a, b) == Last(a) <= First(b) \/ Last(b) <= First(a)
Inside(a, b) == First(b) <= First(a) /\ Last(a) <= Last(b)
Nested(as) == \A i, j \in 1 .. Len(as) : i < j => Disjoint(as[i], as[j]) \/ Inside(as[i], as[j]) \/ Inside(as[j], as[i])
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
PeakOf(as) == MaxOf({0} \cup UNION {Usages(as[i]) : i \in 1 .. Len(as)})
=============================================================================
