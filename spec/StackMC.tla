------------------------------ MODULE StackMC ------------------------------
(***************************************************************************)
(* Mechanism model of the compact sorted stacks (C22).  A stack of numbers *)
(* is kept as a bitmap in blocks of B bits.  When a number is pushed into  *)
(* a block and the block below is empty, that block stores a pointer to    *)
(* the old top instead.  kind 1: strictly increasing; kind 2: with         *)
(* duplicates, which are bits of a second stack; kind 3: numbers above n   *)
(* go into an overflow list.                                               *)
(* The abstract stack is seq.  Refines says that the mechanism answers     *)
(* the same; Clean that a block never holds bits and a pointer, that the   *)
(* words used exist, and that nothing is left behind by popped numbers.    *)
(* The module generates the histories replayed into the code (B = 63).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS B, Ns, Kinds, U, Gen, K
VARIABLES kind, n, seq, cnt, top, blk, dup, ovf, bad, hist
vars == <<kind, n, seq, cnt, top, blk, dup, ovf, bad, hist>>
Off == IF kind = 3 THEN B ELSE 1
Empty == [p |-> -1, s |-> {}]
NB(k, m) == IF k = 3 THEN m \div B + 2 ELSE (m + 1) \div B + 1
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Init == /\ kind \in Kinds /\ n \in Ns /\ seq = <<>> /\ cnt = 0 /\ top = 0
        /\ blk = [i \in 0 .. NB(kind, n) - 1 |-> IF i = 0 THEN [p |-> -1, s |-> {0}] ELSE Empty]
        /\ dup = {} /\ ovf = <<>> /\ bad = FALSE /\ hist = <<<<0, kind, n>>>>
Last(s) == s[Len(s)]
Fits(x) == IF seq = <<>> THEN TRUE ELSE IF kind = 2 THEN Last(seq) <= x ELSE Last(seq) < x
Above == IF seq = <<>> THEN U ELSE {z \in U : z > Last(seq)}
May(x) == /\ kind # 3 => x <= n
          /\ Fits(x)
          /\ kind = 2 => Len(seq) < n
\* set the bit of y (offset included) and let the empty block below point to the old top
SetBit(y) ==
  LET bn == y \div B b == y % B IN
  /\ bad' = (bad \/ bn \notin DOMAIN blk \/ (bn \in DOMAIN blk /\ (blk[bn].p # -1 \/ b \in blk[bn].s)))
  /\ blk' = IF bn \notin DOMAIN blk THEN blk
            ELSE LET c == [blk EXCEPT ![bn].s = @ \cup {b}] IN
                 IF bn > 0 /\ c[bn - 1] = Empty THEN [c EXCEPT ![bn - 1].p = top] ELSE c
  /\ top' = y
Push(x) ==
  /\ May(x) /\ seq' = Append(seq, x) /\ cnt' = cnt + 1
  /\ LET y == x + Off bn == y \div B IN
     IF kind = 3 /\ y > n + B
     THEN /\ ovf' = (IF ovf = <<>> THEN <<top>> ELSE ovf) \o <<y>>
          /\ top' = y /\ UNCHANGED <<blk, dup, bad>>
     ELSE IF kind = 2 /\ bn \in DOMAIN blk /\ (y % B) \in blk[bn].s
     THEN dup' = dup \cup {cnt} /\ UNCHANGED <<blk, top, ovf, bad>>
     ELSE SetBit(y) /\ UNCHANGED <<dup, ovf>>
DropTop ==
  LET bn == top \div B s == blk[bn].s \ {top % B} IN
  /\ UNCHANGED <<dup, ovf>>
  /\ IF s # {} THEN blk' = [blk EXCEPT ![bn].s = s] /\ top' = bn * B + MaxOf(s) /\ bad' = bad
     ELSE IF bn = 0 THEN bad' = TRUE /\ UNCHANGED <<blk, top>>
     ELSE IF blk[bn - 1].p = -1
     THEN IF blk[bn - 1].s = {} THEN bad' = TRUE /\ UNCHANGED <<blk, top>>
          ELSE blk' = [blk EXCEPT ![bn].s = s] /\ top' = (bn - 1) * B + MaxOf(blk[bn - 1].s) /\ bad' = bad
     ELSE blk' = [blk EXCEPT ![bn].s = s, ![bn - 1] = Empty] /\ top' = blk[bn - 1].p /\ bad' = bad
Pop ==
  /\ cnt > 0 /\ seq' = SubSeq(seq, 1, Len(seq) - 1) /\ cnt' = cnt - 1
  /\ IF kind = 3 /\ top > n + B
     THEN LET o == SubSeq(ovf, 1, Len(ovf) - 1) IN
          top' = Last(o) /\ ovf' = (IF Len(o) = 1 THEN <<>> ELSE o) /\ UNCHANGED <<blk, dup, bad>>
     ELSE IF kind = 2 /\ (cnt - 1) \in dup THEN dup' = dup \ {cnt - 1} /\ UNCHANGED <<blk, top, ovf, bad>>
     ELSE DropTop
\* in a generated history runs of pushes and runs of pops alternate; 3 moves the stack to another object, 2 on an empty stack has no effect
Rising == (Len(hist) \div 9) % 2 = 0
Go(o) == hist' = IF Gen THEN Append(hist, o) ELSE hist
Near(x) == Cardinality({z \in Above : z < x}) < 6
Next == /\ ~Gen \/ Len(hist) < K
        /\ UNCHANGED <<kind, n>>
        /\ \/ \E x \in U : /\ ~Gen \/ (IF Rising THEN Near(x) ELSE Len(hist) % 4 = 1 /\ Near(x))
                           /\ Push(x) /\ Go(<<1, x, 0>>)
           \/ /\ ~Gen \/ ~Rising \/ Len(hist) % 5 = 2
              /\ Pop /\ Go(<<2, 0, 0>>)
           \/ /\ Gen /\ (Len(hist) % 11 = 3 \/ seq = <<>> \/ Len(hist) % 4 = 0)
              /\ \E w \in 0 .. 4 : Go(<<3, w, 0>>) /\ UNCHANGED <<seq, cnt, top, blk, dup, ovf, bad>>
           \/ /\ Gen /\ cnt = 0 /\ Go(<<2, 0, 0>>) /\ UNCHANGED <<seq, cnt, top, blk, dup, ovf, bad>>
Spec == Init /\ [][Next]_vars
Refines == /\ cnt = Len(seq)
           /\ top = IF seq = <<>> THEN 0 ELSE Last(seq) + Off
           /\ \A i \in 1 .. Len(seq) : (i - 1 \in dup) <=> (i > 1 /\ seq[i - 1] = seq[i])
           /\ \A d \in dup : d < 64 * (n \div 64 + 1)
Clean == /\ ~bad
         /\ \A i \in DOMAIN blk : blk[i].p # -1 => blk[i].s = {}
         /\ LET In == {seq[i] + Off : i \in {j \in 1 .. Len(seq) : kind # 3 \/ seq[j] <= n}} \cup {0} IN
            \A i \in DOMAIN blk : \A b \in 0 .. B - 1 : (b \in blk[i].s) <=> (i * B + b \in In)
Emit == ~Gen \/ Len(hist) < K \/ PrintT("GEN " \o ToString(hist))
=============================================================================
