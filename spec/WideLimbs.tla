------------------------------- MODULE WideLimbs -------------------------------
(***************************************************************************)
(* Arithmetic on natural numbers written as sequences of 16-bit limbs,     *)
(* least significant first (TLC's integers have 32 bits).  Results keep    *)
(* the number of limbs of the first argument, i.e. they are modulo         *)
(* 2^(16*Len).                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Base16 == 65536
LZero(n) == [i \in 1 .. n |-> 0]
LPad(a, n) == [i \in 1 .. n |-> IF i <= Len(a) THEN a[i] ELSE 0]
LOf(x, n) == [i \in 1 .. n |-> IF i = 1 THEN x % Base16 ELSE IF i = 2 THEN x \div Base16 ELSE 0]
RECURSIVE LAddC(_, _, _, _, _)
LAddC(a, b, i, c, acc) == IF i > Len(a) THEN acc
  ELSE LET s == a[i] + b[i] + c IN LAddC(a, b, i + 1, s \div Base16, TLCEval(Append(acc, s % Base16)))
LAdd(a, b) == LAddC(a, b, 1, 0, <<>>)
RECURSIVE LSubC(_, _, _, _, _)
LSubC(a, b, i, c, acc) == IF i > Len(a) THEN acc
  ELSE LET s == a[i] - b[i] - c IN LSubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, TLCEval(Append(acc, IF s < 0 THEN s + Base16 ELSE s)))
LSub(a, b) == LSubC(a, b, 1, 0, <<>>)
RECURSIVE LCmp(_, _, _)
LCmp(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE LCmp(a, b, i - 1)
LLess(a, b) == LCmp(a, b, Len(a)) < 0
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
LBit(a, i) == IF i \div 16 >= Len(a) THEN 0 ELSE (a[(i \div 16) + 1] \div P2[(i % 16) + 1]) % 2
LBits(a, n) == [i \in 1 .. n |-> LBit(a, i - 1)]
RECURSIVE LTop(_, _)
LTop(a, i) == IF i < 0 THEN -1 ELSE IF LBit(a, i) = 1 THEN i ELSE LTop(a, i - 1)
LHi(a) == LTop(a, 16 * Len(a) - 1)            \* position of the highest set bit, -1 for zero
\* left shift by s bits
LShl(a, s) == LET q == s \div 16 r == s % 16 IN
  [i \in 1 .. Len(a) |->
     (IF i - q >= 1 THEN (a[i - q] % P2[17 - (IF r = 0 THEN 1 ELSE r)]) * P2[r + 1] ELSE 0) * (IF r = 0 THEN 0 ELSE 1)
     + (IF r = 0 /\ i - q >= 1 THEN a[i - q] ELSE 0)
     + (IF r > 0 /\ i - q - 1 >= 1 THEN a[i - q - 1] \div P2[17 - r] ELSE 0)]
LFromBits(b, n) == [i \in 1 .. n |-> LET f[k \in 0 .. 16] == IF k = 0 THEN 0 ELSE f[k - 1] + (IF 16 * (i - 1) + k <= Len(b) THEN b[16 * (i - 1) + k] * P2[k] ELSE 0) IN f[16]]
=============================================================================
