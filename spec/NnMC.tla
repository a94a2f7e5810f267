-------------------------------- MODULE NnMC --------------------------------
(***************************************************************************)
(* Mechanism model of the dynamic successor dictionary (C22): a tree of    *)
(* W-bit words, every level stored without the words that would only cover *)
(* positions >= n.  A bit of an inner word says whether the word below is  *)
(* non-zero.  tree is the set of <<word, bit>> that are set.               *)
(* Summary: inner bits are exactly the non-zero words; Answers: the climbs *)
(* and descents of next and prev find the successor and predecessor of the *)
(* set S at every position; Inside: every word touched exists.             *)
(* The module generates the histories replayed into the code (W = 64).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, Ns, U, Gen, K
VARIABLES n, S, tree, bad, hist
vars == <<n, S, tree, bad, hist>>
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE W * Pow(k - 1)
RECURSIVE Log(_)
Log(m) == IF m < W THEN 0 ELSE 1 + Log(m \div W)
D == Log(n)
Leaves == (Pow(D) - 1) \div (W - 1)                 \* virtual number of the first leaf
RECURSIVE Width(_)                                  \* words of the level that is k above the leaves
Width(k) == IF k = 0 THEN (n + W - 1) \div W ELSE (Width(k - 1) + W - 1) \div W
RECURSIVE Skip(_)                                   \* virtual words missing before level d
Skip(d) == IF d = 0 THEN 0 ELSE Skip(d - 1) + (Pow(d - 1) - Width(D - (d - 1)))
RECURSIVE Words(_)
Words(d) == IF d < 0 THEN 0 ELSE Width(D - d) + Words(d - 1)
Real(v, d) == v - Skip(d)
Word(t, v, d) == {b \in 0 .. W - 1 : <<Real(v, d), b>> \in t}
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : y <= x
RECURSIVE Ins(_, _, _, _)
Ins(t, v, b, d) == LET w == Word(t, v, d) IN
  IF b \in w THEN t
  ELSE LET u == t \cup {<<Real(v, d), b>>} IN IF w = {} /\ d > 0 THEN Ins(u, (v - 1) \div W, (v - 1) % W, d - 1) ELSE u
RECURSIVE Del(_, _, _, _)
Del(t, v, b, d) == LET w == Word(t, v, d) IN
  IF b \notin w THEN t
  ELSE LET u == t \ {<<Real(v, d), b>>} IN IF w = {b} /\ d > 0 THEN Del(u, (v - 1) \div W, (v - 1) % W, d - 1) ELSE u
RECURSIVE Down(_, _, _, _)
Down(v, b, d, first) == IF d = D THEN (v - Leaves) * W + b
                        ELSE LET c == v * W + 1 + b w == Word(tree, c, d + 1) IN
                             IF w = {} THEN -1 ELSE Down(c, IF first THEN MinOf(w) ELSE MaxOf(w), d + 1, first)
RECURSIVE Up(_, _, _)
Up(v, o, d) == LET w == {b \in Word(tree, v, d) : b >= o} IN
  IF w # {} THEN Down(v, MinOf(w), d, TRUE) ELSE IF v = 0 THEN n ELSE Up((v - 1) \div W, ((v - 1) % W) + 1, d - 1)
RECURSIVE UpL(_, _, _)
UpL(v, o, d) == LET w == {b \in Word(tree, v, d) : b <= o} IN
  IF w # {} THEN Down(v, MaxOf(w), d, FALSE) ELSE IF v = 0 THEN n ELSE UpL((v - 1) \div W, ((v - 1) % W) - 1, d - 1)
NextM(i) == Up(Leaves + i \div W, i % W, D)
PrevM(i) == UpL(Leaves + i \div W, i % W, D)
NextA(i) == LET X == {s \in S : s >= i} IN IF X = {} THEN n ELSE MinOf(X)
PrevA(i) == LET X == {s \in S : s <= i} IN IF X = {} THEN n ELSE MaxOf(X)
Init == n \in Ns /\ S = {} /\ tree = {} /\ bad = FALSE /\ hist = <<<<0, 4, n>>>>
Go(o) == hist' = IF Gen THEN Append(hist, o) ELSE hist
Filling == (Len(hist) \div 24) % 2 = 0
Set(x) == /\ S' = S \cup {x} /\ tree' = Ins(tree, Leaves + x \div W, x % W, D)
Reset(x) == /\ S' = S \ {x} /\ tree' = Del(tree, Leaves + x \div W, x % W, D)
Next == /\ ~Gen \/ Len(hist) < K
        /\ UNCHANGED <<n, bad>>
        /\ \/ \E x \in U : x < n /\ (~Gen \/ (IF Filling THEN Len(hist) % 3 # 2 ELSE Len(hist) % 6 = 1)) /\ Set(x) /\ Go(<<1, x, 0>>)
           \/ \E x \in (IF Gen THEN S ELSE U) : x < n /\ (~Gen \/ (IF Filling THEN Len(hist) % 8 = 1 ELSE Len(hist) % 3 # 2)) /\ Reset(x) /\ Go(<<2, x, 0>>)
           \/ \E x \in U : Gen /\ x < n /\ Len(hist) % 3 = 2 /\ Go(<<5, x, 0>>) /\ UNCHANGED <<S, tree>>
           \/ \E w \in 0 .. 5 : Gen /\ Len(hist) % 13 = 7 /\ Go(<<3, w, 0>>) /\ UNCHANGED <<S, tree>>
           \/ Gen /\ (Len(hist) % 50 = 49 \/ (~Filling /\ S = {})) /\ S' = {} /\ tree' = {} /\ Go(<<4, 0, 0>>)
Spec == Init /\ [][Next]_vars
Bits(v, d) == Word(tree, v, d)
Summary == \A d \in 0 .. D - 1 : \A k \in 0 .. Width(D - d) - 1 : \A b \in 0 .. W - 1 :
             LET v == (Pow(d) - 1) \div (W - 1) + k  c == v * W + 1 + b IN
             (b \in Bits(v, d)) <=> (c - (Pow(d + 1) - 1) \div (W - 1) < Width(D - d - 1) /\ Bits(c, d + 1) # {})
Inside == \A e \in tree : e[1] \in 0 .. Words(D) - 1
Answers == Gen \/ \A i \in 0 .. n - 1 : NextM(i) = NextA(i) /\ PrevM(i) = PrevA(i) /\ ((i \in S) <=> (i % W \in Bits(Leaves + i \div W, D)))
Emit == ~Gen \/ Len(hist) < K \/ PrintT("GEN " \o ToString(hist))
=============================================================================
