------------------------------ MODULE CodesMC ------------------------------
(***************************************************************************)
(* Small-scope check of the code definitions of Codes and of the decoding  *)
(* mechanism the library uses for prefix sums: a stream of codewords is    *)
(* decoded through a table indexed by a window of WIN bits which yields    *)
(* (bits consumed, codewords, sum), with a fall-back to a single codeword  *)
(* when the window holds no whole codeword or too many of them.  The bits  *)
(* after the stream are arbitrary.                                         *)
(***************************************************************************)
EXTENDS Codes, FiniteSets, TLC
CONSTANTS MaxV, MaxLen, MaxN, WIN
CodeSet == {"gamma", "delta", "fibonacci", "comma"}
K == 2
Strings == TLCEval(UNION {[1 .. n -> {0, 1}] : n \in 1 .. MaxLen})
V4(v) == LOf(v, 4)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* limb arithmetic against the integers
ASSUME Arith == \A a \in {0, 1, 9, 65535, 65536, 65537, 131071, 1000000}, b \in {0, 1, 2, 65535, 65536, 99999} :
   /\ LAdd(LOf(a, 3), LOf(b, 3)) = LOf(a + b, 3)
   /\ a >= b => LSub(LOf(a, 3), LOf(b, 3)) = LOf(a - b, 3)
   /\ LLess(LOf(a, 3), LOf(b, 3)) = (a < b)
   /\ \A s \in 0 .. 10 : LShl(LOf(a, 3), s) = LOf(a * P2[s + 1], 3)
   /\ \A i \in 0 .. 20 : LBit(LOf(a, 3), i) = (IF i < 16 THEN (a \div P2[i + 1]) % 2 ELSE (a \div (65536 * P2[i - 15])) % 2)

VARIABLES code, words, vals, bits, n, pos, cnt, sum
vars == <<code, words, vals, bits, n, pos, cnt, sum>>
\* words[v] is the set of codewords of v (Unique: exactly one)
Word(v) == CHOOSE w \in words[v] : TRUE
RECURSIVE Cat(_, _)
Cat(vs, i) == IF i > Len(vs) THEN <<>> ELSE Word(vs[i]) \o Cat(vs, i + 1)
RECURSIVE Sum(_, _)
Sum(vs, i) == IF i = 0 THEN 0 ELSE Sum(vs, i - 1) + vs[i]
Garbage == {[i \in 1 .. WIN |-> x] : x \in {0, 1}} \cup {[i \in 1 .. WIN |-> i % 2]}
Init == /\ code \in CodeSet
        /\ words = [v \in 1 .. MaxV |-> {w \in Strings : IsWord(code, K, w, V4(v))}]
        /\ vals = <<>> /\ bits = <<>> /\ n = 0 /\ pos = 0 /\ cnt = 0 /\ sum = 0
Pick == /\ vals = <<>>
        /\ vals' \in UNION {[1 .. m -> 1 .. MaxV] : m \in 1 .. MaxN}
        /\ n' \in 0 .. Len(vals')
        /\ \E g \in Garbage : bits' = Cat(vals', 1) \o g
        /\ UNCHANGED <<code, words, pos, cnt, sum>>
\* the table: greedy decoding of the whole codewords in a window
Hit(w) == {v \in 1 .. MaxV : IsPrefix(Word(v), w)}
RECURSIVE Greedy(_, _, _, _)
Greedy(w, used, k, s) ==
  LET h == Hit(w) IN
  IF h = {} THEN <<used, k, s>>
  ELSE LET v == CHOOSE x \in h : TRUE
           m == Len(Word(v))
       IN Greedy(SubSeq(w, m + 1, Len(w)), used + m, k + 1, s + v)
Window == SubSeq(bits, pos + 1, IF pos + WIN > Len(bits) THEN Len(bits) ELSE pos + WIN)
Table == Greedy(Window, 0, 0, 0)
TableStep == /\ cnt < n /\ Table[2] > 0 /\ cnt + Table[2] <= n
             /\ pos' = pos + Table[1] /\ cnt' = cnt + Table[2] /\ sum' = sum + Table[3]
             /\ UNCHANGED <<code, words, vals, bits, n>>
SingleStep == /\ cnt < n /\ (Table[2] = 0 \/ cnt + Table[2] > n)
              /\ LET h == Hit(SubSeq(bits, pos + 1, Len(bits)))
                 IN /\ h # {}
                    /\ \E v \in h : pos' = pos + Len(Word(v)) /\ cnt' = cnt + 1 /\ sum' = sum + v
              /\ UNCHANGED <<code, words, vals, bits, n>>
Next == Pick \/ TableStep \/ SingleStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
PrefixSums == sum = Sum(vals, cnt) /\ pos = Len(Cat(SubSeq(vals, 1, cnt), 1))
NoStall == cnt < n => ENABLED Next
Unique == \A v \in 1 .. MaxV : Cardinality(words[v]) = 1
PrefixFree == vals = <<>> => \A a, b \in 1 .. MaxV : a # b => ~IsPrefix(Word(a), Word(b))
Finishes == <>(vals # <<>> /\ cnt = n)
=============================================================================
