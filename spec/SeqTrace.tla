----------------------------- MODULE SeqTrace -----------------------------
(***************************************************************************)
(* Traces of the real wavelet trees (C12, C13).  A "case" event fixes the  *)
(* abstract sequence; every query event must agree with it.                *)
(***************************************************************************)
EXTENDS TraceBase, SeqDef
VARIABLES l, cur
vars == <<l, cur>>

C == Trace[cur]
CaseOK(e) == /\ Len(e.s) = e.n /\ Len(e.occ) = Len(e.syms)
             /\ \A k \in 1 .. Len(e.syms) - 1 : LimbLess(e.syms[k], e.syms[k + 1])
             /\ OccOK(e.s, e.occ)

MetaOK(e) == /\ e.res[1] = C.n
             /\ e.res[2] \in {-1, Cardinality({c \in 1 .. Len(C.occ) : Len(C.occ[c]) > 0})}
             /\ e.res[3] = (IF C.n = 0 THEN 1 ELSE 0)
AccessOK(e) == Len(e.res) = Len(e.pos) /\ \A k \in 1 .. Len(e.pos) : e.res[k] = C.s[e.pos[k] + 1]
IterOK(e) == e.res = C.s
RankOK(e) == Len(e.res) = Len(e.c) /\ \A k \in 1 .. Len(e.c) : RankCert(C.occ, e.c[k], e.i[k], e.res[k])
SelectOK(e) == Len(e.res) = Len(e.c) /\ \A k \in 1 .. Len(e.c) : e.res[k] = C.occ[e.c[k] + 1][e.k[k]]
InvSelOK(e) == Len(e.res) = Len(e.pos) /\ \A k \in 1 .. Len(e.pos) :
                  /\ e.res[k][2] = C.s[e.pos[k] + 1]
                  /\ RankCert(C.occ, e.res[k][2], e.pos[k], e.res[k][1])

LexCountOK(e) == Len(e.res) = Len(e.i) /\ \A k \in 1 .. Len(e.i) :
  /\ RankCert(C.occ, e.c[k], e.i[k], e.res[k][1])
  /\ e.res[k][2] = Smaller(C.s, e.i[k], e.j[k], e.c[k])
  /\ e.res[k][3] = Greater(C.s, e.i[k], e.j[k], e.c[k])
LexSmallerOK(e) == Len(e.res) = Len(e.i) /\ \A k \in 1 .. Len(e.i) :
  /\ RankCert(C.occ, e.c[k], e.i[k], e.res[k][1])
  /\ e.res[k][2] = Smaller(C.s, 0, e.i[k], e.c[k])
\* the distinct symbols of the interval, each once, with their ranks at both ends
ISymOne(r, i, j) == LET D == Distinct(C.s, i, j) IN
  /\ Len(r) = Cardinality(D) /\ {r[x][1] : x \in 1 .. Len(r)} = D
  /\ \A x \in 1 .. Len(r) : RankCert(C.occ, r[x][1], i, r[x][2]) /\ RankCert(C.occ, r[x][1], j, r[x][3])
ISymOK(e) == Len(e.res) = Len(e.i) /\ \A k \in 1 .. Len(e.i) : ISymOne(e.res[k], e.i[k], e.j[k])
Firsts(r) == [x \in 1 .. Len(r) |-> r[x][1]]
ISymLexOK(e) == ISymOK(e) /\ \A k \in 1 .. Len(e.i) : Asc(Firsts(e.res[k]))
Range2dOK(e) == Len(e.res) = Len(e.i) /\ \A k \in 1 .. Len(e.i) :
  LET P == Points(C.s, e.i[k], e.j[k], e.c[k], e.d[k]) r == e.res[k] IN
    r[1] = Cardinality(P) /\ Len(r[2]) = r[1] /\ {r[2][x] : x \in 1 .. Len(r[2])} = P
Range2dCountOK(e) == Len(e.res) = Len(e.i) /\ \A k \in 1 .. Len(e.i) :
  e.res[k][1] = Cardinality(Points(C.s, e.i[k], e.j[k], e.c[k], e.d[k])) /\ e.res[k][2] = 0
QuantileOK(e) == Len(e.res) = Len(e.i) /\ \A k \in 1 .. Len(e.i) : IsQuantile(C.s, e.i[k], e.j[k], e.q[k], e.res[k][1], e.res[k][2])
InRange(v, r) == Before(C.occ, v, r[2] + 1) - Before(C.occ, v, r[1])
RECURSIVE SumIn(_, _, _)
SumIn(v, rs, k) == IF k = 0 THEN 0 ELSE InRange(v, rs[k]) + SumIn(v, rs, k - 1)
InterOne(r, rs, t) ==
  LET tt == IF t = 0 THEN Len(rs) ELSE t
      cand == UNION {Distinct(C.s, rs[k][1], rs[k][2] + 1) : k \in 1 .. Len(rs)}
      D == {v \in cand : Cardinality({k \in 1 .. Len(rs) : InRange(v, rs[k]) > 0}) >= tt}
  IN /\ Len(r) = Cardinality(D) /\ {r[x][1] : x \in 1 .. Len(r)} = D
     /\ \A x \in 1 .. Len(r) : r[x][2] = SumIn(r[x][1], rs, Len(rs))
InterOK(e) == Len(e.res) = Len(e.ranges) /\ \A k \in 1 .. Len(e.ranges) : InterOne(e.res[k], e.ranges[k], e.t[k])
InterLexOK(e) == InterOK(e) /\ \A k \in 1 .. Len(e.res) : Asc(Firsts(e.res[k]))
Occurs == {c \in 0 .. Len(C.occ) - 1 : Len(C.occ[c + 1]) > 0}
LteOK(e) == LET O == Occurs IN Len(e.res) = Len(e.c) /\ \A k \in 1 .. Len(e.c) :
  LET S == {x \in O : x <= e.c[k]} IN IF S = {} THEN e.res[k][1] = 0 ELSE e.res[k] = <<1, Max(S)>>
GteOK(e) == LET O == Occurs IN Len(e.res) = Len(e.c) /\ \A k \in 1 .. Len(e.c) :
  LET S == {x \in O : x >= e.c[k]} IN IF S = {} THEN e.res[k][1] = 0 ELSE e.res[k] = <<1, Min(S)>>
UniqueOK(e) == Len(e.res) = Len(e.i) /\ \A k \in 1 .. Len(e.i) :
  LET D == {v \in Distinct(C.s, e.i[k], e.j[k]) : e.c[k] <= v /\ v <= e.d[k]} r == e.res[k] IN
    Len(r) = Cardinality(D) /\ {r[x] : x \in 1 .. Len(r)} = D /\ Asc(r)

\* node-wise traversal: ns is the list of visited nodes, ns[1] the root, l/r are 0-based indices
Filter(q, b, v) == LET I == {x \in 1 .. Len(q) : b[x] = v}
                       F[x \in 0 .. Len(q)] == IF x = 0 THEN <<>> ELSE IF b[x] = v THEN Append(F[x - 1], q[x]) ELSE F[x - 1]
                   IN F[Len(q)]
Cnt(b, x, v) == Cardinality({y \in 1 .. x : b[y] = v})
MapOK(b, rq, m) == /\ Len(m) = Len(rq)
                   /\ \A k \in 1 .. Len(rq) : m[k] = <<Cnt(b, rq[k][1], 0), Cnt(b, rq[k][2] + 1, 0), Cnt(b, rq[k][1], 1), Cnt(b, rq[k][2] + 1, 1)>>
\* node nd holds exactly sequence q
Holds(nd, q) == /\ nd.size = Len(q) /\ nd.empty = (IF Len(q) = 0 THEN 1 ELSE 0)
                /\ IF nd.leaf = 1 THEN \A x \in 1 .. Len(q) : q[x] = nd.sym ELSE nd.seq = q
InnerOK(ns, nd, lex) == (nd.leaf = 0 /\ nd.size > 0) =>
  /\ Len(nd.bits) = nd.size /\ \A x \in 1 .. nd.size : nd.bits[x] \in {0, 1}
  /\ nd.l >= 0 /\ nd.r >= 0
  /\ LET L == Filter(nd.seq, nd.bits, 0) R == Filter(nd.seq, nd.bits, 1) IN
       /\ Holds(ns[nd.l + 1], L) /\ Holds(ns[nd.r + 1], R)
       /\ lex => \A x \in 1 .. Len(L), y \in 1 .. Len(R) : L[x] < R[y]
  /\ MapOK(nd.bits, nd.rq, nd.rl) /\ MapOK(nd.bits, nd.rq, nd.rv) /\ MapOK(nd.bits, nd.rq, nd.rm)
RECURSIVE Follow(_, _, _)
Follow(ns, k, p) == IF p = <<>> THEN k ELSE IF ns[k + 1].leaf = 1 THEN -1
                    ELSE LET h == IF Head(p) = 0 THEN ns[k + 1].l ELSE ns[k + 1].r IN IF h < 0 THEN -1 ELSE Follow(ns, h, Tail(p))
NodesOK(e, lex) == LET ns == e.res.nodes IN
  /\ Holds(ns[1], C.s)
  /\ \A k \in 1 .. Len(ns) : InnerOK(ns, ns[k], lex)
  /\ \A k \in 1 .. Len(e.res.paths) : LET f == Follow(ns, 0, e.res.paths[k][2]) IN f >= 0 /\ ns[f + 1].leaf = 1 /\ ns[f + 1].sym = e.res.paths[k][1]

Legal(e) == CASE e.op = "meta" -> MetaOK(e)
              [] e.op = "access" -> AccessOK(e)
              [] e.op = "iter" -> IterOK(e)
              [] e.op = "rank_at" -> RankOK(e)
              [] e.op = "select_at" -> SelectOK(e)
              [] e.op = "invsel" -> InvSelOK(e)
              [] e.op = "lex_count" -> LexCountOK(e)
              [] e.op = "lex_smaller" -> LexSmallerOK(e)
              [] e.op = "interval_symbols" -> ISymOK(e)
              [] e.op = "interval_symbols_lex" -> ISymLexOK(e)
              [] e.op = "range2d" -> Range2dOK(e)
              [] e.op = "range2d_count" -> Range2dCountOK(e)
              [] e.op = "quantile" -> QuantileOK(e)
              [] e.op = "intersect" -> InterOK(e)
              [] e.op = "intersect_lex" -> InterLexOK(e)
              [] e.op = "symbol_lte" -> LteOK(e)
              [] e.op = "symbol_gte" -> GteOK(e)
              [] e.op = "unique_range" -> UniqueOK(e)
              [] e.op = "nodes" -> NodesOK(e, FALSE)
              [] e.op = "nodes_lex" -> NodesOK(e, TRUE)
              [] OTHER -> FALSE

Init == l = 1 /\ cur = 0 /\ ResetRegisters
Job == Trace[l].op = "job" /\ cur' = 0
Case == Trace[l].op = "case" /\ Judge(l, CaseOK(Trace[l])) /\ cur' = l
Query == Trace[l].op \notin {"job", "case"} /\ Judge(l, Legal(Trace[l])) /\ UNCHANGED cur
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Job \/ Case \/ Query)
Spec == Init /\ [][Next]_vars
=============================================================================
