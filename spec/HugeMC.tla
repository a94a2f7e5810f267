------------------------------- MODULE HugeMC -------------------------------
(* The pair arithmetic of HugeBits, for a small base, against the definitions of BitVec. *)
EXTENDS BitVec, TLC
CONSTANTS N, B, Cap, K
H == INSTANCE HugeBits WITH HBase <- B, HCap <- Cap
Seg1 == {<<s \div B, s % B, c, st>> : s \in 0 .. N - 1, c \in 1 .. 4, st \in 1 .. 4}
VARIABLES n, segs
vars == <<n, segs>>
Init == n \in 0 .. N /\ segs = <<>>
Next == Len(segs) < K /\ \E g \in Seg1 : LET s2 == Append(segs, g) IN H!SegsOK(H!PFrom(n), s2) /\ segs' = s2 /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
OnesSet == UNION {{H!PInt(H!Start(segs[k])) + j * segs[k][4] : j \in 0 .. segs[k][3] - 1} : k \in 1 .. Len(segs)}
Bits == [i \in 1 .. n |-> IF i - 1 \in OnesSet THEN 1 ELSE 0]
Inside == \A x \in OnesSet : x < n
BitsAgree == LET b == TLCEval(Bits) IN \A i \in 0 .. n - 1 : H!HBit(segs, H!PFrom(i)) = b[i + 1]
RanksAgree == LET b == TLCEval(Bits) IN \A p \in {"1", "0", "10"}, i \in 0 .. n : H!HRank(segs, p, H!PFrom(i)) = H!PFrom(Rank(b, p, i))
SelectsAgree == LET b == TLCEval(Bits) IN
  \A p \in {"1", "0", "10"} : LET o == TLCEval(Occ(b, p)) IN
    \A x \in 0 .. n : LET r == Cardinality({j \in o : j < x}) IN
      \A k \in 1 .. n : H!HSelectOK(H!PFrom(n), segs, p, H!PFrom(k), H!PFrom(x)) = (x \in o /\ r = k - 1)
=============================================================================
