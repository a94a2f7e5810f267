------------------------------ MODULE FileSys ------------------------------
(***************************************************************************)
(* Abstract file system with output and input streams (C09).  A file is    *)
(* missing or a sequence of bytes.  A stream has a position; an output     *)
(* stream in append mode writes at the end.  Operators yield the state     *)
(* after an operation; both the trace specification and the mechanism      *)
(* model use them.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
Missing == [ok |-> FALSE, b |-> <<>>]
File(b) == [ok |-> TRUE, b |-> b]
\* bytes bs written at position p (a gap is filled with zeros)
WriteAt(b, p, bs) ==
  LET n == IF bs = <<>> \/ Len(b) >= p + Len(bs) THEN Len(b) ELSE p + Len(bs)
  IN [i \in 1 .. n |-> IF i > p /\ i <= p + Len(bs) THEN bs[i - p] ELSE IF i <= Len(b) THEN b[i] ELSE 0]
ReadAt(b, p, n) == IF p >= Len(b) THEN <<>> ELSE SubSeq(b, p + 1, IF p + n < Len(b) THEN p + n ELSE Len(b))
\* opening an output stream: flags in, trunc, app, ate
OpenOutOK(file, in, trunc, app) == file.ok \/ ~in \/ trunc \/ app
OpenOutFile(file, in, trunc, app) ==
  IF trunc THEN File(<<>>)
  ELSE IF file.ok /\ (in \/ app) THEN file
  ELSE File(<<>>)
OpenOutPos(file2, ate) == IF ate THEN Len(file2.b) ELSE 0
SeekTarget(pos, len, off, way) == CASE way = 0 -> off [] way = 1 -> pos + off [] way = 2 -> len + off
=============================================================================
