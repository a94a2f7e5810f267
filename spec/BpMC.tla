-------------------------------- MODULE BpMC --------------------------------
(***************************************************************************)
(* Every balanced sequence of length <= N: exactly one certificate is      *)
(* accepted, and the operations of BpBase agree with their definitions by  *)
(* scanning.                                                               *)
(***************************************************************************)
EXTENDS BpBase
CONSTANTS N
BSmall == 3
VARIABLES s, o
Init == s = <<>> /\ o = 0
Next == Len(s) < N /\ (\/ s' = Append(s, 1) /\ o' = o + 1
                       \/ o > 0 /\ s' = Append(s, 0) /\ o' = o - 1)
Spec == Init /\ [][Next]_<<s, o>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
First(S, none) == IF S = {} THEN none ELSE MinOf(S)
Last(S, none) == IF S = {} THEN none ELSE MaxOf(S)
Ones(i) == Cardinality({k \in 1 .. i + 1 : s[k] = 1})
Ex(i) == 2 * Ones(i) - (i + 1)
Inv == o = 0 =>
  LET n == Len(s) pos == 0 .. n - 1
      e == [k \in 1 .. n |-> Ex(k - 1)]
      \* the closing position of i: the first position behind it with one less
      m == TLCEval([k \in 1 .. n |-> IF s[k] = 1 THEN First({j \in k .. n - 1 : e[j + 1] = e[k] - 1}, n)
                                  ELSE Last({j \in 0 .. k - 2 : s[j + 1] = 1 /\ e[j + 1] = e[k] + 1}, n)])
      op == {i \in pos : s[i + 1] = 1}
      p == TLCEval([k \in 1 .. n |-> IF s[k] = 0 THEN -1 ELSE Last({j \in op : j < k - 1 /\ m[j + 1] > m[k]}, -1)])
      bm == TLCEval(BlockMin(e))
  IN /\ BpCert(s, e, m, p)
     /\ \A i \in pos : \A v \in -1 .. n : /\ v # m[i + 1] => ~BpCert(s, e, [m EXCEPT ![i + 1] = v], p)
                                          /\ v # p[i + 1] => ~BpCert(s, e, m, [p EXCEPT ![i + 1] = v])
                                          /\ v # e[i + 1] => ~BpCert(s, [e EXCEPT ![i + 1] = v], m, p)
     \* exchanging the partners of two closing positions is noticed
     /\ \A i, j \in op : i < j => ~BpCert(s, e, [m EXCEPT ![i + 1] = m[j + 1], ![j + 1] = m[i + 1], ![m[i + 1] + 1] = j, ![m[j + 1] + 1] = i], p)
     /\ \A a, b \in pos : a <= b => \A t \in -1 .. n : Below(e, bm, a, b, t) = (\E i \in a .. b : e[i + 1] < t)
     /\ \A i, j \in op : RRPre(s, m, i, j) =>
          LET rr == First({k \in op : m[i + 1] < k /\ k < j /\ m[j + 1] < m[k + 1]}, n) IN
          \A k \in 0 .. n : /\ IsRREnclose(s, m, p, i, j, k) = (k = rr)
                            /\ IsDoubleEnclose(s, m, p, i, j, rr, k) = (k = Last({q \in op : q < i /\ m[q + 1] > m[j + 1]}, n))
     /\ \A l, r \in pos : l <= r => \A k \in 0 .. n : IsRmqOpen(s, m, p, l, r, k) = (k = First({q \in op : l <= q /\ q < r /\ m[q + 1] >= r}, n))
     /\ \A i \in pos : \A q \in 0 .. n : Preceding(s, i, q) = (q = i - Last({k + 1 : k \in {x \in op : x < i}}, 0))
     /\ \A i \in op : \A d \in 0 .. n : LevelAnc(p, i, d) = Last({q \in op : q <= i /\ m[q + 1] >= m[i + 1] /\ e[q + 1] = e[i + 1] - d}, -1)
=============================================================================
