------------------------------- MODULE HeapMC -------------------------------
(***************************************************************************)
(* The large-page allocator as a mechanism (C25): a boundary-tag heap.     *)
(* The reserved area [0, top) is tiled by blocks; b maps the offset of a   *)
(* block to its size, its state and the slot that owns it (0: free).       *)
(* A block of size z holds z - 16 bytes of data (header and footer).       *)
(* Allocation takes a smallest sufficient free block and splits it, else   *)
(* extends a free last block, else takes new space.  Freeing merges with   *)
(* free neighbours.  Reallocation shrinks in place, extends the last       *)
(* block, merges with the next or the previous free block, or moves.       *)
(* Space that is not there makes a request fail without effect.            *)
(* The module also generates the histories replayed on the real allocator. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Total, Slots, Sizes, Gen, K
VARIABLES top, b, at, req, once, hist
vars == <<top, b, at, req, once, hist>>
None == -1
Al(x) == 8 * ((x + 7) \div 8)
Need(n) == LET z == Al(n + 16) IN IF z < 32 THEN 32 ELSE z
Init == top = 0 /\ b = <<>> /\ at = [s \in Slots |-> None] /\ req = [s \in Slots |-> 0] /\ once = 0 /\ hist = <<>>
Offs(h) == DOMAIN h
Free(h, o) == h[o].own = 0
\* the heap h without the blocks at the offsets D
Without(h, D) == [o \in Offs(h) \ D |-> h[o]]
With(h, o, z, w) == [x \in Offs(h) \cup {o} |-> IF x = o THEN [size |-> z, own |-> w] ELSE h[x]]
NextFree(h, o, t) == LET n == o + h[o].size IN n < t /\ Free(h, n)
PrevFree(h, o) == \E p \in Offs(h) : p + h[p].size = o /\ Free(h, p)
Prev(h, o) == CHOOSE p \in Offs(h) : p + h[p].size = o
\* make the block at o free and merge it with its neighbours
Coalesce(h, o, t) ==
  LET n == o + h[o].size
      h1 == IF NextFree(h, o, t) THEN Without(With(h, o, h[o].size + h[n].size, 0), {n}) ELSE With(h, o, h[o].size, 0)
  IN IF PrevFree(h1, o) THEN LET p == Prev(h1, o) IN Without(With(h1, p, h1[p].size + h1[o].size, 0), {o}) ELSE h1
\* cut the block at o (owned by w) down to what n bytes need
Split(h, o, n, w, t) ==
  LET z == h[o].size keep == Al(n + 16) rest == z - keep IN
  IF rest >= 32 THEN Coalesce(With(With(h, o, keep, w), o + keep, rest, 0), o + keep, t) ELSE With(h, o, z, w)
Fits(h, n) == {o \in Offs(h) : Free(h, o) /\ h[o].size >= n + 16}
Best(h, n) == {o \in Fits(h, n) : \A p \in Fits(h, n) : h[o].size <= h[p].size}
LastFree(h) == {o \in Offs(h) : Free(h, o) /\ o + h[o].size = top}
Put(h, t, s, o, n) == b' = h /\ top' = t /\ at' = [at EXCEPT ![s] = o] /\ req' = [req EXCEPT ![s] = n] /\ once' = IF n > once THEN n ELSE once
Fail == UNCHANGED <<top, b, at, req, once>>
Alloc(h, t, s, n) ==      \* in the heap h with top t
  IF Fits(h, n) # {} THEN \E o \in Best(h, n) : Put(Split(h, o, n, s, t), t, s, o, n)
  ELSE IF LastFree(h) # {} THEN
         LET o == CHOOSE x \in LastFree(h) : TRUE
             more == Al(n - (h[o].size - 16))
         IN IF t + more > Total THEN Fail ELSE Put(With(h, o, h[o].size + more, s), t + more, s, o, n)
       ELSE IF t + Need(n) > Total THEN Fail ELSE Put(With(h, t, Need(n), s), t + Need(n), s, t, n)
FreeSlot(s) == b' = Coalesce(b, at[s], top) /\ at' = [at EXCEPT ![s] = None] /\ req' = [req EXCEPT ![s] = 0] /\ UNCHANGED <<top, once>>
\* take new space for slot s, then release its old block at o
Move(s, n, o) ==
  IF Fits(b, n) # {} THEN \E x \in Best(b, n) : LET h == Split(b, x, n, s, top) IN Put(Coalesce(h, o, top), top, s, x, n)
  ELSE IF LastFree(b) # {} THEN
         LET x == CHOOSE y \in LastFree(b) : TRUE
             more == Al(n - (b[x].size - 16))
         IN IF top + more > Total THEN Fail ELSE Put(Coalesce(With(b, x, b[x].size + more, s), o, top + more), top + more, s, x, n)
       ELSE IF top + Need(n) > Total THEN Fail ELSE Put(Coalesce(With(b, top, Need(n), s), o, top + Need(n)), top + Need(n), s, top, n)
Realloc(s, n) ==
  LET o == at[s] z == b[o].size d == z - 16 nx == o + z IN
  IF n = d THEN Put(b, top, s, o, n)
  ELSE IF n < d THEN Put(Split(b, o, n, s, top), top, s, o, n)
  ELSE IF nx = top THEN (LET more == Al(n - d) IN IF top + more > Total THEN Fail ELSE Put(With(b, o, z + more, s), top + more, s, o, n))
  ELSE IF Free(b, nx) THEN (IF d + b[nx].size >= n THEN Put(Without(With(b, o, z + b[nx].size, s), {nx}), top, s, o, n) ELSE Move(s, n, o))
  ELSE IF PrevFree(b, o) THEN (LET p == Prev(b, o) IN IF d + b[p].size >= n THEN Put(Without(With(b, p, b[p].size + z, s), {o}), top, s, p, n) ELSE Move(s, n, o))
  ELSE Move(s, n, o)
Live == {s \in Slots : at[s] # None}
Rec(o) == hist' = IF Gen THEN Append(hist, o) ELSE hist
\* generated histories also empty the heap now and then
Phase == Len(hist) % 40
Next == /\ ~Gen \/ Len(hist) < K
        /\ \/ \E s \in Slots, n \in Sizes : (~Gen \/ (Phase < 34 /\ n >= 0)) /\ at[s] = None /\ Alloc(b, top, s, n) /\ Rec(<<1, s, n>>)
           \/ \E s \in Slots, n \in Sizes : (~Gen \/ Phase < 34) /\ at[s] # None /\ n > 0 /\ Realloc(s, n) /\ Rec(<<2, s, n>>)
           \/ \E s \in Slots : at[s] # None /\ FreeSlot(s) /\ Rec(<<3, s, 0>>)
           \/ Gen /\ Phase >= 34 /\ Live = {} /\ once > 0 /\ (\E s \in Slots : Alloc(b, top, s, once) /\ Rec(<<1, s, once>>))
Spec == Init /\ [][Next]_vars
\* the blocks tile [0, top): every block ends where another begins, or at the top
Tiled == /\ (top = 0 <=> b = <<>>) /\ (top > 0 => 0 \in Offs(b)) /\ top <= Total
         /\ \A o \in Offs(b) : b[o].size >= 16 /\ (o + b[o].size = top \/ o + b[o].size \in Offs(b))
         /\ \A o, p \in Offs(b) : o < p => o + b[o].size <= p
Owned == /\ \A s \in Slots : at[s] # None => at[s] \in Offs(b) /\ b[at[s]].own = s
         /\ \A o \in Offs(b) : b[o].own # 0 => at[b[o].own] = o
Room == \A s \in Live : b[at[s]].size - 16 >= req[s]
Aligned == \A o \in Offs(b) : o % 8 = 0
Merged == \A o \in Offs(b) : Free(b, o) => ~NextFree(b, o, top)
\* nothing live: one free block that satisfies the largest request there ever was
Reusable == Live = {} /\ top > 0 => Offs(b) = {0} /\ b[0].size - 16 >= once
Emit == ~Gen \/ Len(hist) < K \/ PrintT("GEN " \o ToString(hist))
=============================================================================
