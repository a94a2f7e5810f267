------------------------------ MODULE SizeTree ------------------------------
(***************************************************************************)
(* Structure trees (C24): <<class, name, size, <<children>>>>.             *)
(***************************************************************************)
EXTENDS Integers, Sequences
SizesOf(ts) == LET s[i \in 0 .. Len(ts)] == IF i = 0 THEN 0 ELSE s[i - 1] + ts[i][3] IN s[Len(ts)]
\* a node accounts for at least what its children account for
RECURSIVE Sound(_)
Sound(t) == /\ t[3] >= 0 /\ t[3] >= SizesOf(t[4])
            /\ \A i \in 1 .. Len(t[4]) : Sound(t[4][i])
=============================================================================
