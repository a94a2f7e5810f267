------------------------------ MODULE HugeFile ------------------------------
(***************************************************************************)
(* Files longer than the integers of the model checker: the length and the *)
(* sequence of the writes <<position, bytes>> since the file was created.  *)
(* HugeFileMC shows that this refines FileSys.                             *)
(***************************************************************************)
EXTENDS HugePos
HEmpty == [size |-> PZero, ws |-> <<>>]
HWrite(f, p, bs) == IF bs = <<>> THEN f
                    ELSE LET e == PAdd(p, PFrom(Len(bs))) IN [size |-> IF PLess(f.size, e) THEN e ELSE f.size, ws |-> Append(f.ws, <<p, bs>>)]
Covers(w, p) == ~PLess(p, w[1]) /\ PLess(p, PAdd(w[1], PFrom(Len(w[2]))))
RECURSIVE LastByte(_, _, _)
LastByte(ws, p, k) == IF k = 0 THEN 0 ELSE IF Covers(ws[k], p) THEN ws[k][2][PInt(PSub(p, ws[k][1])) + 1] ELSE LastByte(ws, p, k - 1)
HReadLen(f, p, n) == IF ~PLess(p, f.size) THEN 0 ELSE LET d == PSub(f.size, p) IN IF PLess(d, PFrom(n)) THEN PInt(d) ELSE n
HRead(f, p, n) == [i \in 1 .. HReadLen(f, p, n) |-> LastByte(f.ws, PAdd(p, PFrom(i - 1)), Len(f.ws))]
\* seek by off forward, or backward if neg; <<>>: before the begin of the file
HTarget(pos, size, off, neg, way) ==
  LET from == CASE way = 0 -> PZero [] way = 1 -> pos [] way = 2 -> size
  IN IF ~neg THEN PAdd(from, off) ELSE IF PLess(from, off) THEN <<>> ELSE PSub(from, off)
=============================================================================
