----------------------------- MODULE BitsTrace -----------------------------
(***************************************************************************)
(* Recorded results of the word primitives, tables, memory fields and wide *)
(* integers on every variant, judged against Bits.                         *)
(***************************************************************************)
EXTENDS TraceBase, Bits
VARIABLE l
Pow2(n) == LET f[k \in 0 .. n] == IF k = 0 THEN 1 ELSE 2 * f[k - 1] IN f[n]
WordOK(x, r) ==
  LET o == TLCEval(Ones(x))
      e0 == TLCEval(Elevens(x, 0)) e1 == TLCEval(Elevens(x, 1))
      m100 == TLCEval(Map10(x, 0)) m101 == TLCEval(Map10(x, 1)) m010 == TLCEval(Map01(x, 0)) m011 == TLCEval(Map01(x, 1))
      lowc == Cardinality({k \in 1 .. Len(o) : o[k] < 32})
  IN /\ r.n = <<Len(o), lowc, Len(o) - lowc, Last0(o), First0(o), Last0(e0.t), Len(e0.t)>>
     /\ r.c = << <<Len(e0.t), e0.c, Len(Ones(m100)), x[64], Len(Ones(m010)), x[64]>>,
                 <<Len(e1.t), e1.c, Len(Ones(m101)), x[64], Len(Ones(m011)), x[64]>> >>
     /\ r.m = <<m100, m101, m010, m011, Rev(x)>>
     /\ r.s = <<o, o>>
     /\ r.t = <<e0.t, e1.t>>
FieldOK(m, x, o, len, r) ==
  LET p == 64 + o
      w == TLCEval(Ones(WriteField(m, p, len, x)))
      v == Low(Field(m, p, len), len, 64)
  IN /\ r.w = w /\ r.wm = w /\ r.r = v /\ r.rm = v
     /\ r.mv = <<p + len, 1, p + len, 1, p + len, 1, 128 + o - len, 1>>
NextOf(s, q) == LET C == {k \in 1 .. Len(s) : s[k] >= q} IN IF C = {} THEN -1 ELSE s[CHOOSE k \in C : \A j \in C : k <= j]
PrevOf(s, q) == LET C == {k \in 1 .. Len(s) : s[k] <= q} IN IF C = {} THEN -1 ELSE s[CHOOSE k \in C : \A j \in C : k >= j]
ScanOK(s, q, r) ==
  LET n == NextOf(s, q) IN
  /\ r[1] = n /\ r[2] = PrevOf(s, q)
  /\ n >= 0 => r[3] = n - q /\ r[4] = n - q /\ r[5] = n + 1 /\ r[6] = 1
\* tables: values are four 16-bit limbs
LimbBits(v) == [k \in 1 .. 64 |-> (v[((k - 1) \div 16) + 1] \div Pow2((k - 1) % 16)) % 2]
Small(v, x) == v[1] = x /\ v[2] = 0 /\ v[3] = 0 /\ v[4] = 0
ByteBits(b) == [k \in 1 .. 8 |-> (b \div Pow2(k - 1)) % 2]
DB == <<1,1,1,1,1,1,0,1,1,0,1,1,1,0,1,0,1,0,1,1,1,1,0,0,1,0,1,1,0,0,1,1,0,1,0,0,1,0,0,1,1,1,0,0,0,1,0,1,0,0,0,1,1,0,0,0,0,1,0,0,0,0,0,0>>
FibLimb(a, b, c, k) == LET f[j \in 0 .. 4] == IF j = 0 THEN 0 ELSE (a[j] + b[j] + f[j - 1]) \div 65536 IN (a[k] + b[k] + f[k - 1]) % 65536 = c[k] /\ f[4] = 0
TableOK(t, r) ==
  CASE t = 0 -> Len(r) = 65 /\ \A i \in 0 .. 64 : LimbBits(r[i + 1]) = [k \in 1 .. 64 |-> B(k <= i)]
    [] t = 1 -> Len(r) = 65 /\ \A i \in 0 .. 64 : LimbBits(r[i + 1]) = [k \in 1 .. 64 |-> B(k > i)]
    \* byte j is 128 - i, so that adding a cumulative count c sets the top bit of the byte iff c >= i (each entry 1..64 is used)
    [] t = 2 -> Len(r) = 65 /\ \A i \in 1 .. 64 : \A k \in 1 .. 4 : r[i + 1][k] = (128 - i) * 257
    [] t = 3 -> \A b \in 0 .. 255 : Small(r[b + 1], Len(Ones(ByteBits(b))))
    [] t = 4 -> \A b \in 0 .. 255 : Small(r[b + 1], Last0(Ones(ByteBits(b))))
    [] t = 5 -> \A b \in 0 .. 255 : Small(r[b + 1], First0(Ones(ByteBits(b))))
    [] t = 6 -> \A b \in 0 .. 255 : LET o == TLCEval(Ones(ByteBits(b))) IN \A j \in 1 .. Len(o) : Small(r[256 * (j - 1) + b + 1], o[j])
    [] t = 7 -> \A i \in 0 .. 63 : LET q == LET f[j \in 0 .. 6] == IF j = 6 THEN 0 ELSE (LET p == 58 + j - i IN IF p >= 0 THEN DB[p + 1] ELSE 0) * Pow2(j) + f[j + 1] IN f[0] IN Small(r[q + 1], i)
    [] t = 8 -> /\ r[1] = <<1, 0, 0, 0>> /\ r[2] = <<2, 0, 0, 0>>
                /\ \A i \in 3 .. 92 : \A k \in 1 .. 4 : FibLimb(r[i - 1], r[i - 2], r[i], k)
    [] t = 9 -> r[1] = <<65535, 65535, 65535, 65535>>
ArithOK(a, b, n, r) ==
  LET ad == TLCEval(Add(a, b)) su == TLCEval(Sub(a, b)) o == TLCEval(Or(a, b)) an == TLCEval(And(a, b))
      b0 == TLCEval(Low(b, 64, n)) c == Cmp(a, b)
  IN /\ r.ar[1] = ad /\ r.ar[2] = su /\ r.ar[3] = o /\ r.ar[4] = an /\ r.ar[5] = ad /\ r.ar[6] = su /\ r.ar[7] = o /\ r.ar[8] = a
     /\ IF n = 128 THEN r.ar[9] = Not(a) /\ r.ar[10] = Add(a, b0) /\ r.ar[11] = r.ar[10] /\ r.ar[12] = Or(a, b0)
        ELSE r.ar[9] = a /\ r.ar[10] = Low(a, 64, n)
     /\ r.cmp = <<B(c = 0), B(c # 0), B(c < 0), B(c > 0), B(c <= 0), B(c >= 0), B(Cmp(a, b0) > 0)>>
StrOK(a, r) == /\ Len(r) * 4 = Len(a)
               /\ \A i \in 1 .. Len(r) : LET p == Len(a) - 4 * i IN r[i] = a[p + 1] + 2 * a[p + 2] + 4 * a[p + 3] + 8 * a[p + 4]
E == Trace[l]
OK ==
  CASE E.op = "job" -> TRUE
    [] E.op = "word" -> WordOK(E.x, E.res)
    [] E.op = "field" -> FieldOK(E.mem, E.x, E.o, E.len, E.res)
    [] E.op = "scan" -> Len(E.res) = Len(E.q) /\ \A i \in 1 .. Len(E.q) : ScanOK(E.ones, E.q[i], E.res[i])
    [] E.op = "table" -> TableOK(E.t, E.res)
    [] E.op = "wide" -> ArithOK(E.a, E.b, E.n, E.res)
    [] E.op = "shift" -> Len(E.res) = 2 * Len(E.s) /\ \A i \in 1 .. Len(E.s) : E.res[2 * i - 1] = Shl(E.a, E.s[i]) /\ E.res[2 * i] = Shr(E.a, E.s[i])
    [] E.op = "wquery" -> LET o == Ones(E.a) IN E.res = <<Len(o), Last0(o), o>>
    [] E.op = "wstr" -> StrOK(E.a, E.res)
    [] OTHER -> FALSE
Init == l = 1 /\ ResetRegisters
Next == l <= Len(Trace) /\ Judge(l, OK) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
