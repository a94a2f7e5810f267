------------------------------ MODULE HugeBits ------------------------------
(***************************************************************************)
(* Bitvectors longer than the integers of the model checker: a position is *)
(* a pair <<high, low>> in base HBase, and the content is a sequence of    *)
(* segments <<high, low, count, stride>>: count ones, stride apart.        *)
(* HugeMC compares this with the definitions of BitVec for a small base.   *)
(***************************************************************************)
EXTENDS HugePos
CONSTANT HCap                 \* a segment spans less than HBase * HCap positions
Start(g) == <<g[1], g[2]>>
Last(g) == PAdd(Start(g), PFrom((g[3] - 1) * g[4]))
SegsOK(n, segs) ==
  /\ PosOK(n)
  /\ \A k \in 1 .. Len(segs) :
       /\ PosOK(Start(segs[k])) /\ segs[k][3] > 0 /\ segs[k][4] > 0 /\ segs[k][3] - 1 <= (HBase * HCap - 1) \div segs[k][4]
       /\ PLess(Last(segs[k]), n)
       /\ k > 1 => PLess(PSucc(Last(segs[k - 1])), Start(segs[k]))
\* ones of segment g before position i
SegOnes(g, i) == IF ~PLess(Start(g), i) THEN 0
                 ELSE LET d == PSub(i, Start(g)) IN
                      IF d[1] >= HCap THEN g[3] ELSE LET c == (PInt(d) - 1) \div g[4] + 1 IN IF c > g[3] THEN g[3] ELSE c
\* zeros of "10" before position i that end a run of ones of segment g
SegEnds(g, i) == IF i = PZero THEN 0
                 ELSE IF g[4] > 1 THEN SegOnes(g, PPred(i)) ELSE IF PLess(PSucc(Last(g)), i) THEN 1 ELSE 0
RECURSIVE SumSegs(_, _, _, _)
SumSegs(segs, i, ends, k) == IF k = 0 THEN PZero ELSE PAdd(PFrom(IF ends THEN SegEnds(segs[k], i) ELSE SegOnes(segs[k], i)), SumSegs(segs, i, ends, k - 1))
HOnes(segs, i) == SumSegs(segs, i, FALSE, Len(segs))
HEnds(segs, i) == SumSegs(segs, i, TRUE, Len(segs))
HBit(segs, p) == PInt(PSub(HOnes(segs, PSucc(p)), HOnes(segs, p)))
HRank(segs, pat, i) == CASE pat = "1" -> HOnes(segs, i)
                         [] pat = "0" -> PSub(i, HOnes(segs, i))
                         [] pat = "10" -> HEnds(segs, i)
HEndsAt(segs, pat, p) == CASE pat = "1" -> HBit(segs, p) = 1
                           [] pat = "0" -> HBit(segs, p) = 0
                           [] pat = "10" -> PSub(HEnds(segs, PSucc(p)), HEnds(segs, p)) = POne
HSelectOK(n, segs, pat, k, p) == PosOK(p) /\ PLess(p, n) /\ HEndsAt(segs, pat, p) /\ HRank(segs, pat, p) = PPred(k)
=============================================================================
