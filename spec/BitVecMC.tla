------------------------------ MODULE BitVecMC ------------------------------
(* Exhaustive check over all bitvectors of length <= N, built bit by bit.   *)
EXTENDS BitVec, TLC
CONSTANT N
VARIABLE b
Init == b = <<>>
PushBit(x) == Len(b) < N /\ b' = Append(b, x)
Next == \E x \in {0, 1} : PushBit(x)
Spec == Init /\ [][Next]_b

n == Len(b)
RunStarts == {j \in 0 .. n - 1 : b[j + 1] = 1 /\ (j = 0 \/ b[j] = 0)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
RunLen(s) == CHOOSE l \in 1 .. n : (\A j \in s .. s + l - 1 : b[j + 1] = 1) /\ (s + l = n \/ b[s + l + 1] = 0)
R == LET st == Sorted(RunStarts)
     IN [s |-> st, l |-> [k \in 1 .. Len(st) |-> RunLen(st[k])], c |-> [k \in 1 .. Len(st) |-> Rank(b, "1", st[k])]]

\* the certificate accepts the defined table and rejects every table that differs in one entry
CertRank == \A p \in Patterns : LET t == [i \in 1 .. n + 1 |-> Rank(b, p, i - 1)]
            IN RankTable(b, p, t) /\ \A i \in 1 .. n + 1 : \A d \in {-1, 1} : ~RankTable(b, p, [t EXCEPT ![i] = @ + d])
CertSelect == \A p \in Patterns : LET s == OccSeq(b, p)
            IN /\ SelectTable(b, p, s)
               /\ \A k \in 1 .. Len(s) : \A v \in 0 .. n - 1 : v # s[k] => ~SelectTable(b, p, [s EXCEPT ![k] = v])
               /\ Len(s) > 0 => ~SelectTable(b, p, SubSeq(s, 1, Len(s) - 1))
RunsAgree == /\ RunsOK(n, R)
             /\ \A p \in Patterns : \A i \in 0 .. n : RunRank(n, R, p, i) = Rank(b, p, i)
             /\ \A p \in Patterns : \A k \in 1 .. Count(b, p) : \A v \in 0 .. n - 1 : RunSelectOK(n, R, p, k, v) <=> v = Select(b, p, k)
DirAgrees == \A p \in Patterns : \A i \in 0 .. n : DirRank(b, p, i, 2, 2) = Rank(b, p, i) /\ DirRank(b, p, i, 3, 2) = Rank(b, p, i)
SelAgrees == \A p \in Patterns : \A k \in 1 .. Count(b, p) : \A T \in {2, 4} : McSelect(b, p, k, 4, 2, T) = Select(b, p, k)
SdAgrees == n > 0 =>
               /\ \A i \in 0 .. n : SdRank1(b, i) = Rank(b, "1", i)
               /\ \A k \in 1 .. Count(b, "1") : SdSelect1(b, k) = Select(b, "1", k)
RrrAgrees == /\ \A i \in 0 .. n : RrrRank(b, i, 3, 2) = Rank(b, "1", i) /\ RrrRank(b, i, 2, 2) = Rank(b, "1", i)
             /\ n <= 6 => Denum(n, Count(b, "1"), Enum(b, n, Count(b, "1"))) = b
             /\ n <= 6 => Enum(b, n, Count(b, "1")) < Binom(n, Count(b, "1"))
RankSelectInverse == \A p \in Patterns : \A k \in 1 .. Count(b, p) : Rank(b, p, Select(b, p, k)) = k - 1 /\ Rank(b, p, Select(b, p, k) + 1) = k
=============================================================================
