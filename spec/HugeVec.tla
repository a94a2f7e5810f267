------------------------------ MODULE HugeVec -------------------------------
(***************************************************************************)
(* A long vector of zeros in which a few elements were written (C01, C07,  *)
(* C08): idx ascending, val the last values written; q the positions asked *)
(* for, got the answers of several ways of reading.                        *)
(***************************************************************************)
EXTENDS Limbs
HugeOK(e) ==
  /\ e.size = e.n
  /\ \A k \in 1 .. Len(e.idx) - 1 : e.idx[k] < e.idx[k + 1]
  /\ \A k \in 1 .. Len(e.idx) : e.idx[k] < e.n
  /\ \A k \in 1 .. Len(e.q) :
       LET at == {i \in 1 .. Len(e.idx) : e.idx[i] = e.q[k]}
           x == IF at = {} THEN LZero ELSE e.val[CHOOSE i \in at : TRUE]
       IN \A j \in 1 .. Len(e.got) : e.got[j][k] = x
=============================================================================
