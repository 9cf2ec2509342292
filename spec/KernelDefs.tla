------------------------------ MODULE KernelDefs ------------------------------
(***************************************************************************)
(* Definitions of the operators that dominate evaluation.  Over the small  *)
(* field they are evaluated as they stand (small/Kernel.tla); over the     *)
(* real field TLC evaluates the J... operators of bls/Kernel.tla, whose    *)
(* bodies are these definitions, in Java (kzg/Overrides.java).             *)
(* KernelCheck.tla compares the two.                                       *)
(***************************************************************************)
EXTENDS Field, SequencesExt, TLC

Zeros(n) == TLCEval([i \in 1..n |-> F0])
Coef(p, i) == IF i + 1 \in DOMAIN p THEN p[i + 1] ELSE F0
PadTo(p, n) == IF Len(p) = n THEN p ELSE p \o Zeros(n - Len(p))

DefPEval(p, x) == FoldRight(LAMBDA c, acc : FAdd(c, FMul(acc, x)), p, F0)     \* Horner

(* <<1, x, x^2, ..., x^(n-1)>> *)
RECURSIVE DefPowers(_, _)
DefPowers(x, n) ==
  IF n <= 1 THEN SubSeq(<<F1>>, 1, n)
  ELSE LET h == DefPowers(x, (n + 1) \div 2)
           y == FMul(h[Len(h)], x)
       IN TLCEval([i \in 1..n |-> IF i <= Len(h) THEN h[i] ELSE FMul(h[i - Len(h)], y)])

(* ---- radix-2 decimation in time ---- *)
RECURSIVE FFTrec(_, _, _)
FFTrec(a, W, stride) ==     \* W[1 + stride*i] = w^i with w of order Len(a)
  LET n == Len(a) IN
  IF n = 1 THEN a
  ELSE LET h == n \div 2
           e == FFTrec(TLCEval([i \in 1..h |-> a[2*i - 1]]), W, 2 * stride)
           o == FFTrec(TLCEval([i \in 1..h |-> a[2*i]]), W, 2 * stride)
           t == TLCEval([i \in 1..h |-> FMul(W[1 + stride*(i-1)], o[i])])
       IN TLCEval([i \in 1..n |-> IF i <= h THEN FAdd(e[i], t[i]) ELSE FSub(e[i-h], t[i-h])])
DefFFT(p, n) == FFTrec(PadTo(p, n), DefPowers(FRoot(n), n), 1)
DefIFFT(v) ==
  LET n == Len(v)
      f == FFTrec(v, DefPowers(FRoot(n), n), 1)
      s == FInv(FInt(n))
  IN TLCEval([i \in 1..n |-> FMul(s, f[IF i = 1 THEN 1 ELSE n - i + 2])])

(* element-wise product with the powers of g *)
DefScalePowers(v, g) == LET pw == DefPowers(g, Len(v)) IN TLCEval([i \in 1..Len(v) |-> FMul(v[i], pw[i])])

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE RevBits(_, _)
RevBits(i, bits) == IF bits = 0 THEN 0
                    ELSE (i % 2) * (2 ^ (bits - 1)) + RevBits(i \div 2, bits - 1)
RevTable(n) == LET b == Log2(n) IN TLCEval([i \in 1..n |-> 1 + RevBits(i - 1, b)])
DefBitRev(s) == LET n == Len(s) t == RevTable(n) IN TLCEval([i \in 1..n |-> s[t[i]]])

(* remainder of p modulo X^m - c, m coefficients *)
DefRemXmC(p, m, c) ==
  LET blocks == (Len(p) + m - 1) \div m
  IN TLCEval([j \in 1..m |->
       FoldRight(LAMBDA t, acc : FAdd(Coef(p, (j - 1) + m * t), FMul(acc, c)),
                 [t \in 1..blocks |-> t - 1], F0)])

(* sum of a[i] * b[i] *)
DefDot(a, b) == FoldLeft(LAMBDA acc, i : FAdd(acc, FMul(a[i], b[i])), F0, [i \in 1..Len(a) |-> i])

(* schoolbook product of coefficient sequences *)
DefPMul(p, q) ==
  IF p = << >> \/ q = << >> THEN << >>
  ELSE TLCEval([k \in 1..(Len(p) + Len(q) - 1) |->
         FoldLeft(LAMBDA acc, i : IF k - i + 1 \in 1..Len(q) THEN FAdd(acc, FMul(p[i], q[k - i + 1])) ELSE acc, F0, [i \in 1..Len(p) |-> i])])

(* n pseudo-random elements *)
DefRandSeq(s, base, n) == TLCEval([i \in 1..n |-> FRand(s, base + i)])
===========================================================================
