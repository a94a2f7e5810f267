------------------------------ MODULE BufferMC ------------------------------
(***************************************************************************)
(* Mechanism model of int_vector_buffer (C07): one cached block of B       *)
(* elements starting at element begin, a dirty flag, the file behind it    *)
(* and the logical size.  abs is the sequence the user sees.  The model is *)
(* checked exhaustively (Gen = FALSE) and generates behaviours that are    *)
(* replayed on the real class (Gen = TRUE: hist records the calls).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, MaxB, Vals, Gap, Gen, K
VARIABLES file, size, B, begin, cache, dirty, open, abs, hist
vars == <<file, size, B, begin, cache, dirty, open, abs, hist>>
Ext(f, n) == [i \in 1 .. IF Len(f) > n THEN Len(f) ELSE n |-> IF i <= Len(f) THEN f[i] ELSE 0]
\* write_block on state <<f, sz, b, bg, c, d>>: the file afterwards
Flush(f, sz, b, bg, c, d) ==
  IF ~d THEN f
  ELSE LET n == IF bg + b >= sz THEN sz - bg ELSE b
           g == Ext(f, bg + n)
       IN [i \in 1 .. Len(g) |-> IF i > bg /\ i <= bg + n THEN c[i - bg] ELSE g[i]]
\* read_block: the block containing idx (elements behind the end are zero)
Block(f, sz, b, idx) == LET bg == (idx \div b) * b IN
  [k \in 1 .. b |-> IF bg + k <= sz /\ bg + k <= Len(f) THEN f[bg + k] ELSE 0]
Rec(o) == hist' = IF Gen THEN Append(hist, o) ELSE hist
Init == file = <<>> /\ size = 0 /\ B \in 1 .. MaxB /\ begin = 0 /\ cache = [k \in 1 .. B |-> 0] /\ dirty = FALSE /\ open = TRUE /\ abs = <<>> /\ hist = <<<<0, B, 0>>>>
\* make the block of idx current
InBlock(idx) == idx >= begin /\ idx < begin + B
Load(idx, f2, c2, bg2, d2) ==
  IF InBlock(idx) THEN f2 = file /\ c2 = cache /\ bg2 = begin /\ d2 = dirty
  ELSE /\ f2 = Flush(file, size, B, begin, cache, dirty) /\ d2 = FALSE
       /\ bg2 = (idx \div B) * B /\ c2 = Block(f2, size, B, idx)
Cur(idx) == IF InBlock(idx) THEN [f |-> file, c |-> cache, g |-> begin, d |-> dirty]
            ELSE LET f2 == Flush(file, size, B, begin, cache, dirty) IN [f |-> f2, c |-> Block(f2, size, B, idx), g |-> (idx \div B) * B, d |-> FALSE]
Write(idx, v) == LET s == Cur(idx) IN
  /\ open /\ file' = s.f /\ begin' = s.g /\ dirty' = TRUE
  /\ cache' = [s.c EXCEPT ![idx - s.g + 1] = v]
  /\ size' = IF size <= idx THEN idx + 1 ELSE size
  /\ abs' = [i \in 1 .. size' |-> IF i = idx + 1 THEN v ELSE IF i <= Len(abs) THEN abs[i] ELSE 0]
  /\ UNCHANGED <<B, open>>
Read(idx) == LET s == Cur(idx) IN
  /\ open /\ file' = s.f /\ begin' = s.g /\ dirty' = s.d /\ cache' = s.c /\ UNCHANGED <<size, B, open, abs>>
SetB(b) == LET f2 == Flush(file, size, B, begin, cache, dirty) IN
  /\ open /\ file' = f2 /\ dirty' = FALSE /\ B' = b /\ begin' = 0 /\ cache' = Block(f2, size, b, 0) /\ UNCHANGED <<size, open, abs>>
Reset == open /\ file' = <<>> /\ dirty' = FALSE /\ size' = 0 /\ begin' = 0 /\ cache' = [k \in 1 .. B |-> 0] /\ abs' = <<>> /\ UNCHANGED <<B, open>>
Close == open /\ file' = Flush(file, size, B, begin, cache, dirty) /\ dirty' = FALSE /\ open' = FALSE /\ UNCHANGED <<size, B, begin, cache, abs>>
Reopen(b) == ~open /\ open' = TRUE /\ B' = b /\ size' = Len(file) /\ begin' = 0 /\ cache' = Block(file, Len(file), b, 0) /\ dirty' = FALSE /\ UNCHANGED <<file, abs>>
Move == open /\ UNCHANGED <<file, size, B, begin, cache, dirty, open, abs>>
Next ==
  /\ ~Gen \/ Len(hist) < K
  /\ \/ \E i \in 0 .. size + Gap, v \in Vals : i < MaxLen /\ Write(i, v) /\ Rec(<<1, i, v>>)
     \/ \E v \in Vals : size < MaxLen /\ Write(size, v) /\ Rec(<<2, v, 0>>)
     \/ \E i \in 0 .. size - 1 : Read(i) /\ Rec(<<3, i, 0>>)
     \/ \E b \in 1 .. MaxB : SetB(b) /\ Rec(<<4, b, 0>>)
     \/ Reset /\ (~Gen \/ Len(hist) % 8 = 7) /\ Rec(<<5, 0, 0>>)
     \/ Close /\ Rec(<<6, 0, 0>>)
     \/ \E b \in 1 .. MaxB : Reopen(b) /\ Rec(<<7, b, 0>>)
     \/ \E k \in 0 .. 2 : Gen /\ Move /\ Rec(<<8, k, 0>>)
Spec == Init /\ [][Next]_vars
Logical(i) == IF open /\ i >= begin /\ i < begin + B THEN cache[i - begin + 1] ELSE IF i < Len(file) THEN file[i + 1] ELSE 0
Refines == size = Len(abs) /\ \A i \in 0 .. size - 1 : Logical(i) = abs[i + 1]
Persisted == ~open => file = abs
FileBound == Len(file) <= size
\* elements of the block behind the end are zero: growing never exposes stale values
NoStale == \A k \in 1 .. B : begin + k > size => cache[k] = 0
Emit == ~Gen \/ Len(hist) < K \/ PrintT("GEN " \o ToString(hist))
=============================================================================
