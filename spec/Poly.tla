------------------------------- MODULE Poly -------------------------------
(***************************************************************************)
(* Univariate polynomials over Field, as coefficient sequences (element    *)
(* i+1 is the coefficient of X^i), radix-2 domains and bit reversal.       *)
(***************************************************************************)
EXTENDS Kernel

Range0(n) == [i \in 1..n |-> i - 1]
IsZeroPoly(p) == \A i \in DOMAIN p : p[i] = F0
Max2(a, b) == IF a > b THEN a ELSE b

(* ---- textbook definitions ---- *)
Sum(s) == FoldLeft(LAMBDA acc, x : FAdd(acc, x), F0, s)
PAdd(p, q) == TLCEval([i \in 1..Max2(Len(p), Len(q)) |-> FAdd(Coef(p, i-1), Coef(q, i-1))])
PSub(p, q) == TLCEval([i \in 1..Max2(Len(p), Len(q)) |-> FSub(Coef(p, i-1), Coef(q, i-1))])
PNeg(p) == TLCEval([i \in 1..Len(p) |-> FNeg(p[i])])
PScale(p, c) == TLCEval([i \in 1..Len(p) |-> FMul(c, p[i])])
PDropZeros(p) ==   \* canonical form: no leading zero coefficient
  LET nz == {i \in DOMAIN p : p[i] # F0}
  IN IF nz = {} THEN << >> ELSE SubSeq(p, 1, CHOOSE m \in nz : \A i \in nz : i <= m)
PEq(p, q) == PDropZeros(p) = PDropZeros(q)
Vanishing(roots) == FoldLeft(LAMBDA acc, r : PMul(acc, <<FNeg(r), F1>>), <<F1>>, roots)
(* Lagrange interpolation through the points <<xs[i], ys[i]>>, xs distinct *)
Lagrange(xs, ys) ==
  FoldLeft(LAMBDA acc, i :
     LET others == SelectSeq([j \in 1..Len(xs) |-> IF j = i THEN 0 ELSE j], LAMBDA j : j # 0)
         num == Vanishing([j \in 1..Len(others) |-> xs[others[j]]])
         den == FoldLeft(LAMBDA a, j : FMul(a, FSub(xs[i], xs[j])), F1, others)
     IN PAdd(acc, PScale(num, FMul(ys[i], FInv(den)))),
     << >>, [i \in 1..Len(xs) |-> i])

(* ---- powers and roots of unity ---- *)
Powers(x, n) == PowersD(x, n)
Roots(n) == PowersD(FRoot(n), n)          \* n a power of two
NaiveDFT(p, n) == TLCEval([i \in 1..n |-> DefPEval(p, FPow(FRoot(n), i - 1))])

(* ---- coset transforms: evaluation on g * <w> ---- *)
CosetFFT(p, n, g) == FFT(ScalePowers(PadTo(p, n), g), n)
CosetIFFT(v, g) == ScalePowers(IFFT(v), FInv(g))

QuoXmC(p, m, c) ==     \* quotient of p by X^m - c
  LET n == Len(p)
      step(acc, i) ==  \* acc: coefficients of degree i+1 .. n-m-1 in reverse order
        LET up == IF Len(acc) >= m THEN acc[Len(acc) - m + 1] ELSE F0
        IN Append(acc, FAdd(Coef(p, i + m), FMul(c, up)))
  IN IF n <= m THEN << >>
     ELSE Reverse(FoldLeft(step, << >>, [k \in 1..(n - m) |-> n - m - k]))
===========================================================================
