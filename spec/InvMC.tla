------------------------------- MODULE InvMC -------------------------------
(***************************************************************************)
(* Two static structures of C22, checked for all small inputs.             *)
(* Inverse permutation: along a cycle every T-th element is marked and     *)
(* points back to the previous marked one (the first to the last); the     *)
(* inverse of i is found by walking the cycle from i, jumping back once.   *)
(* Steps bounds the walk: at most 2T + 1 elements are looked at.           *)
(* Neighbour dictionary: every T-th one is stored absolutely, the others   *)
(* as differences, and a bitmap of T-blocks tells which hold an absolute   *)
(* sample; rank, select, prev and next follow from them.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, M, Ts
VARIABLES phase, t, p, bits
vars == <<phase, t, p, bits>>
Perms(n) == {f \in [0 .. n - 1 -> 0 .. n - 1] : \A i, j \in 0 .. n - 1 : i # j => f[i] # f[j]}
\* inverse permutation
RECURSIVE Walk(_, _, _, _, _, _)      \* <<marked -> back pointer, current back pointer, steps on the cycle>>
Walk(i, j, steps, all, back, bp) ==
  LET k == p[j] IN
  IF k = i THEN IF all > t THEN bp @@ (i :> back) ELSE bp
  ELSE IF steps + 1 = t THEN Walk(i, k, 0, all + 1, k, bp @@ (k :> back))
  ELSE Walk(i, k, steps + 1, all + 1, back, bp)
RECURSIVE Orbit(_, _)
Orbit(i, X) == IF p[i] \in X THEN X ELSE Orbit(p[i], X \cup {p[i]})
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
Leaders == {i \in DOMAIN p : i = MinOf(Orbit(i, {i}))}
RECURSIVE Merge(_)
Merge(L) == IF L = {} THEN <<>> ELSE LET i == MinOf(L) IN Merge(L \ {i}) @@ Walk(i, i, 0, 0, i, <<>>)
RECURSIVE Find(_, _, _, _, _)         \* <<answer, elements looked at>>; jumped: the back pointer was used
Find(i, j, bp, jumped, c) ==
  IF c > 4 * N + 8 THEN <<-1, c>>
  ELSE IF p[j] = i THEN <<j, c>>
  ELSE IF ~jumped /\ j \in DOMAIN bp THEN Find(i, bp[j], bp, TRUE, c + 1)
  ELSE Find(i, p[j], bp, jumped, c + 1)
Inverse == phase # "inv" \/ LET bp == TLCEval(Merge(Leaders)) IN
           \A i \in DOMAIN p : LET r == TLCEval(Find(i, i, bp, FALSE, 1)) IN r[1] # -1 /\ p[r[1]] = i /\ r[2] <= 2 * t + 2
\* neighbour dictionary
Sz == Len(bits)
B(i) == bits[i + 1]
Pos == LET S == {i \in 0 .. Sz - 1 : B(i) = 1} IN
       [k \in 1 .. Cardinality(S) |-> CHOOSE i \in S : Cardinality({j \in S : j < i}) = k - 1]
Ones == Len(Pos)
Abs == [k \in 0 .. Ones \div t |-> IF k = 0 THEN 0 ELSE Pos[k * t]]
Dif == [k \in 0 .. Ones - Ones \div t - 1 |->
          LET o == CHOOSE o \in 1 .. Ones : o % t # 0 /\ o - o \div t - 1 = k IN Pos[o] - (IF o = 1 THEN 0 ELSE Pos[o - 1])]
Has(b) == \E k \in 1 .. Ones : k % t = 0 /\ Pos[k] \div t = b
RECURSIVE Scan(_, _, _)
Scan(idx, r, i) ==                   \* r ones are known to lie before idx; i: position of the r-th
  IF r + 1 > Ones THEN r
  ELSE LET q == r + 1 j == IF q % t = 0 THEN Abs[q \div t] ELSE i + Dif[q - (q \div t) - 1] IN
       IF j >= idx THEN r ELSE Scan(idx, q, j)
RankM(idx) == LET r == Cardinality({b \in 0 .. (idx \div t) - 1 : Has(b)}) IN Scan(idx, r * t, Abs[r])
RECURSIVE AddUp(_, _)
AddUp(j, e) == IF j = e THEN 0 ELSE Dif[j] + AddUp(j + 1, e)
SelM(k) == LET j == k \div t s == j * t - j IN Abs[j] + AddUp(s, s + (k % t))
RankA(idx) == Cardinality({k \in 1 .. Ones : Pos[k] < idx})
Dictionary == phase # "nd" \/ /\ \A i \in 0 .. Sz : RankM(i) = RankA(i)
                              /\ \A k \in 1 .. Ones : SelM(k) = Pos[k]
Init == /\ t \in Ts
        /\ \/ phase = "inv" /\ p \in UNION {Perms(n) : n \in 1 .. N} /\ bits = <<>>
           \/ phase = "nd" /\ p = <<>> /\ bits \in UNION {[1 .. n -> 0 .. 1] : n \in 0 .. M}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
