------------------------------- MODULE Codes -------------------------------
(***************************************************************************)
(* The self-delimiting codes of the library (C06): for each code the set   *)
(* of legal codewords of a value, as bit sequences (first bit first).      *)
(* Values are 64-bit numbers as four limbs; for gamma, delta and Fibonacci *)
(* the value 0 stands for 2^64.                                            *)
(***************************************************************************)
EXTENDS WideLimbs
Ld(x) == IF x < 2 THEN 0 ELSE IF x < 4 THEN 1 ELSE IF x < 8 THEN 2 ELSE IF x < 16 THEN 3 ELSE IF x < 32 THEN 4 ELSE IF x < 64 THEN 5 ELSE 6
Unary(z) == [i \in 1 .. z + 1 |-> IF i = z + 1 THEN 1 ELSE 0]
Bits(x, n) == [i \in 1 .. n |-> (x \div P2[i]) % 2]
LenOf(v) == IF LHi(v) < 0 THEN Len(v) * 16 + 1 ELSE LHi(v) + 1

GammaWord(v) == LET h == LenOf(v) - 1 IN Unary(h) \o LBits(v, h)
DeltaWord(v) == LET len == LenOf(v) ll == Ld(len) IN
  IF ll = 0 THEN <<1>> ELSE Unary(ll) \o Bits(len, ll) \o LBits(v, len - 1)

\* Fibonacci numbers 1, 2, 3, 5, ... as limbs, as many as fit in n limbs
RECURSIVE FibTo(_, _)
FibTo(f, n) == LET m == Len(f) s == LAdd(f[m], f[m - 1]) IN IF LLess(s, f[m]) THEN f ELSE FibTo(TLCEval(Append(f, s)), n)
Fib64 == TLCEval(FibTo(<<LOf(1, 4), LOf(2, 4)>>, 4))     \* 92 numbers
RECURSIVE FibSum(_, _, _, _)
FibSum(F, w, i, acc) == IF i = 0 THEN acc ELSE FibSum(F, w, i - 1, IF w[i] = 1 THEN TLCEval(LAdd(acc, F[i])) ELSE acc)
\* number of code bits without the terminating one
RECURSIVE FibLen(_, _, _)
FibLen(F, v, i) == IF i = Len(F) + 1 THEN Len(F) ELSE IF LLess(v, F[i]) THEN i - 1 ELSE FibLen(F, v, i + 1)
FibIsWord(F, w, v) ==
  LET n == Len(w) z == LHi(v) < 0 IN
  /\ n = (IF z THEN Len(F) ELSE FibLen(F, v, 1)) + 1
  /\ \A i \in 1 .. n : w[i] \in {0, 1}
  /\ w[n] = 1 /\ w[n - 1] = 1
  /\ \A i \in 1 .. n - 2 : ~(w[i] = 1 /\ w[i + 1] = 1)
  /\ FibSum(F, w, n - 1, LZero(Len(v))) = v

\* comma code: digits in base 2^k-1, most significant first, k bits each; the digit 2^k-1 terminates
Digit(w, k, d, n) == LFromBits(SubSeq(w, (d - 1) * k + 1, d * k), n)
AllOnes(w, k, d) == \A i \in (d - 1) * k + 1 .. d * k : w[i] = 1
RECURSIVE Horner(_, _, _, _, _)
Horner(w, k, d, m, acc) ==       \* six limbs; -1 if the value leaves 64 bits
  IF d > m THEN acc
  ELSE LET a == TLCEval(LAdd(LSub(LShl(acc, k), acc), Digit(w, k, d, Len(acc))))
       IN IF \E i \in 5 .. Len(a) : a[i] # 0 THEN <<-1>> ELSE Horner(w, k, d + 1, m, a)
CommaIsWord(w, k, v) ==
  /\ Len(w) % k = 0 /\ Len(w) > 0
  /\ \A i \in 1 .. Len(w) : w[i] \in {0, 1}
  /\ LET m == Len(w) \div k - 1 IN
       /\ AllOnes(w, k, m + 1)
       /\ \A d \in 1 .. m : ~AllOnes(w, k, d)
       /\ m > 0 => \E i \in 1 .. k : w[i] = 1
       /\ Horner(w, k, 1, m, LZero(6)) = LPad(v, 6)

IsWord(code, k, w, v) ==
  CASE code = "gamma" -> w = GammaWord(v)
    [] code = "delta" -> w = DeltaWord(v)
    [] code = "fibonacci" -> FibIsWord(Fib64, w, v)
    [] code = "comma" -> CommaIsWord(w, k, v)
=============================================================================
