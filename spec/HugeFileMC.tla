----------------------------- MODULE HugeFileMC -----------------------------
(* The sparse files of HugeFile, for a small base, and those of FileSys undergo the same steps. *)
EXTENDS FileSys, TLC
CONSTANTS B, M, K
H == INSTANCE HugeFile WITH HBase <- B
VARIABLES f, b, pos
vars == <<f, b, pos>>
Bytes == {<<>>} \cup {<<x>> : x \in 1 .. 2} \cup {<<x, y>> : x, y \in 1 .. 2}
Init == f = H!HEmpty /\ b = <<>> /\ pos = 0
Write == \E bs \in Bytes : Len(f.ws) < K /\ pos + Len(bs) <= M /\ f' = H!HWrite(f, H!PFrom(pos), bs) /\ b' = WriteAt(b, pos, bs) /\ pos' = pos + Len(bs)
Seek == \E way \in 0 .. 2, o \in -3 .. 3 :
  LET t == SeekTarget(pos, Len(b), o, way) h == H!HTarget(H!PFrom(pos), f.size, H!PFrom(IF o < 0 THEN -o ELSE o), o < 0, way) IN
  /\ t <= M
  /\ Assert(((t < 0) = (h = <<>>)) /\ (t >= 0 => h = H!PFrom(t)), "targets differ")
  /\ pos' = IF t < 0 THEN pos ELSE t
  /\ UNCHANGED <<f, b>>
Append2 == \E bs \in Bytes : Len(f.ws) < K /\ Len(b) + Len(bs) <= M /\ f' = H!HWrite(f, f.size, bs) /\ b' = WriteAt(b, Len(b), bs) /\ pos' = Len(b')
Trunc == Len(f.ws) < K /\ f' = H!HEmpty /\ b' = <<>> /\ pos' = 0
Next == Write \/ Seek \/ Append2 \/ Trunc
Spec == Init /\ [][Next]_vars
Sizes == f.size = H!PFrom(Len(b))
Reads == \A p \in 0 .. M + 1, n \in 0 .. 3 : H!HRead(f, H!PFrom(p), n) = ReadAt(b, p, n)
=============================================================================
