------------------------------ MODULE PackedMC ------------------------------
(***************************************************************************)
(* Mechanism model of the packed vector: a memory of words of W bits, read *)
(* and written through masks and shifts of one or two words as bits::      *)
(* read_int / write_int do, and the in-place width changes built on them   *)
(* (util::bit_compress left to right, util::expand_width right to left).   *)
(* Invariant: the memory represents the abstract sequence abs, and no bit  *)
(* outside a written field changes.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, M, Vals
P(n) == LET f[k \in 0 .. n] == IF k = 0 THEN 1 ELSE 2 * f[k - 1] IN f[n]
Words == 0 .. P(W) - 1
VARIABLES mem, w, n, abs, phase, i, nw
vars == <<mem, w, n, abs, phase, i, nw>>
Lo(x, k) == x % P(k)
\* bits::read_int(word, offset, len) on the word pair starting at word q (from 1)
ReadInt(m, q, off, len) ==
  LET w1 == m[q] \div P(off)
  IN IF off + len > W THEN w1 + Lo(m[q + 1], off + len - W) * P(W - off)
     ELSE Lo(w1, len)
\* bits::write_int
WriteInt(m, q, x0, off, len) ==
  LET x == Lo(x0, len) IN
  IF off + len < W
  THEN [m EXCEPT ![q] = Lo(m[q], off) + x * P(off) + (m[q] \div P(off + len)) * P(off + len)]
  ELSE LET m1 == [m EXCEPT ![q] = Lo(m[q], off) + Lo(x * P(off), W)]
           rest == off + len - W
       IN IF rest = 0 THEN m1
          ELSE [m1 EXCEPT ![q + 1] = (m[q + 1] \div P(rest)) * P(rest) + x \div P(len - rest)]
RdAt(m, pos, len) == ReadInt(m, pos \div W + 1, pos % W, len)
WrAt(m, pos, x, len) == WriteInt(m, pos \div W + 1, x, pos % W, len)
Bit(m, k) == (m[k \div W + 1] \div P(k % W)) % 2
MinW(s) == LET S == {k \in 1 .. W : \A j \in 1 .. Len(s) : s[j] < P(k)} IN CHOOSE k \in S : \A x \in S : k <= x
Init == /\ w \in 1 .. W /\ n = (M * W) \div w
        /\ mem \in [1 .. M -> Vals]
        /\ abs = [k \in 1 .. n |-> LET f[j \in 0 .. w] == IF j = w THEN 0 ELSE Bit(mem, (k - 1) * w + j) + 2 * f[j + 1] IN f[0]]
        /\ phase = "idle" /\ i = 0 /\ nw = w
Set == /\ phase = "idle"
       /\ \E k \in 1 .. n, x \in Words :
            /\ mem' = WrAt(mem, (k - 1) * w, x, w)
            /\ abs' = [abs EXCEPT ![k] = x % P(w)]
            \* frame: every other bit of the memory is untouched
            /\ \A b \in 0 .. M * W - 1 : (b < (k - 1) * w \/ b >= k * w) => Bit(mem', b) = Bit(mem, b)
       /\ phase' = "done" /\ UNCHANGED <<w, n, i, nw>>
StartCompress == phase = "idle" /\ MinW(abs) < w /\ phase' = "compress" /\ nw' = MinW(abs) /\ i' = 0 /\ UNCHANGED <<mem, w, n, abs>>
CompressStep == /\ phase = "compress" /\ i < n
                /\ mem' = WrAt(mem, i * nw, RdAt(mem, i * w, w), nw) /\ i' = i + 1 /\ UNCHANGED <<w, n, abs, phase, nw>>
EndCompress == phase = "compress" /\ i = n /\ w' = nw /\ phase' = "done" /\ UNCHANGED <<mem, n, abs, i, nw>>
\* expansion uses a vector cut to as many elements as fit afterwards
StartExpand == /\ phase = "idle" /\ \E v \in w + 1 .. W :
                    /\ nw' = v /\ n' = (M * W) \div v /\ abs' = SubSeq(abs, 1, n')
                    /\ i' = n'
               /\ phase' = "expand" /\ UNCHANGED <<mem, w>>
ExpandStep == /\ phase = "expand" /\ i > 0
              /\ mem' = WrAt(mem, (i - 1) * nw, RdAt(mem, (i - 1) * w, w), nw) /\ i' = i - 1 /\ UNCHANGED <<w, n, abs, phase, nw>>
EndExpand == phase = "expand" /\ i = 0 /\ w' = nw /\ phase' = "done" /\ UNCHANGED <<mem, n, abs, i, nw>>
Next == Set \/ StartCompress \/ CompressStep \/ EndCompress \/ StartExpand \/ ExpandStep \/ EndExpand
Spec == Init /\ [][Next]_vars
Represents == phase \in {"idle", "done"} => \A k \in 1 .. n : RdAt(mem, (k - 1) * w, w) = abs[k]
\* while moving: the moved elements are in the new layout, the others still in the old one
Moving == /\ phase = "compress" => \A k \in 1 .. n : IF k <= i THEN RdAt(mem, (k - 1) * nw, nw) = abs[k] ELSE RdAt(mem, (k - 1) * w, w) = abs[k]
          /\ phase = "expand" => \A k \in 1 .. n : IF k > i THEN RdAt(mem, (k - 1) * nw, nw) = abs[k] ELSE RdAt(mem, (k - 1) * w, w) = abs[k]
\* Set is never blocked by its frame condition
SetEnabled == phase = "idle" => \A k \in 1 .. n, x \in {0, P(W) - 1} : \A b \in 0 .. M * W - 1 :
                 (b < (k - 1) * w \/ b >= k * w) => Bit(WrAt(mem, (k - 1) * w, x, w), b) = Bit(mem, b)
=============================================================================
