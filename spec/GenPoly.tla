------------------------------ MODULE GenPoly ------------------------------
(***************************************************************************)
(* Behaviours of the polynomial library (C18): every step is an operation  *)
(* with its textbook result.  Transforms up to Naive points are evaluated  *)
(* point by point from the definition, larger ones by the kernel that      *)
(* KernelCheck compares with the definition.                               *)
(***************************************************************************)
EXTENDS Choice
CONSTANTS Rounds, From, Sizes, GSizes, Naive
VARIABLES job, step, log
vars == <<job, step, log>>

Fold(p, n) == IF Len(p) <= n THEN PadTo(p, n)
              ELSE TLCEval([i \in 1..n |-> FoldLeft(LAMBDA acc, t : FAdd(acc, Coef(p, (i - 1) + n * t)), F0, [t \in 1..((Len(p) - 1) \div n + 1) |-> t - 1])])
(* values of p at g * w^0, g * w^1, ... *)
EvalOn(p, n, g) ==
  IF n <= Naive THEN LET rs == Roots(n) IN TLCEval([i \in 1..n |-> DefPEval(p, FMul(g, rs[i]))])
  ELSE FFT(Fold(ScalePowers(p, g), n), n)
(* coefficients of the polynomial of degree < n with values v at g * w^i *)
InterpOn(v, n, g) ==
  LET x == PadTo(v, n) IN
  IF n <= Naive
  THEN LET ri == FInv(FRoot(n)) gi == FInv(g) s == FInv(FInt(n)) IN
       TLCEval([j \in 1..n |-> FMul(FMul(s, FPow(gi, j - 1)), DefPEval(x, FPow(ri, j - 1)))])
  ELSE CosetIFFT(x, g)
NextPow2(n) == IF n <= 1 THEN 1 ELSE CHOOSE k \in {2 ^ t : t \in 0..16} : k >= n /\ (k \div 2) < n

P_(v) == [r |-> "p", v |-> FSeqHex(v)]
S_(v) == [r |-> "s", v |-> FSeqHex(v)]
G_(v) == [r |-> "g", v |-> FSeqHex(v)]
H(v) == FSeqHex(v)
(* ---- transforms ---- *)
InLen(s, n) == CASE Rn(s, 31, 8) = 0 -> 0 [] Rn(s, 31, 8) = 1 -> 1 [] Rn(s, 31, 8) = 2 -> n + 1 [] Rn(s, 31, 8) = 3 -> 2 * n + Rn(s, 32, 3)
                 [] Rn(s, 31, 8) = 4 -> 1 + Rn(s, 32, n) [] OTHER -> n
ShiftFor(s) == CASE Rn(s, 41, 5) = 0 -> FInt(7) [] Rn(s, 41, 5) = 1 -> FNeg(F1) [] Rn(s, 41, 5) = 2 -> F1 [] Rn(s, 41, 5) = 3 -> FRoot(8192) [] OTHER -> NonZeroF(s, 42)
(* the argument of Domain::new: sizes that are not powers of two are rounded up *)
AskSize(s, n) == IF n > 2 /\ Rn(s, 51, 4) = 0 THEN n - Rn(s, 52, (n \div 2)) ELSE n
Transforms(s, n) ==
  LET p == TLCEval(AnyVec(s, InLen(s, n)))  v == TLCEval(AnyVec(s + 1, IF InLen(s, n) > n THEN n ELSE InLen(s, n)))
      g == ShiftFor(s)  ask == AskSize(s, n)
      ev == TLCEval(EvalOn(p, n, F1))  cev == TLCEval(EvalOn(p, n, g))
  IN << [op |-> "fft", n |-> ask, a |-> H(p), exp |-> S_(ev)],
        [op |-> "ifft", n |-> ask, a |-> H(ev), exp |-> S_(Fold(p, n))],
        [op |-> "ifft", n |-> n, a |-> H(v), exp |-> S_(InterpOn(v, n, F1))],
        [op |-> "cfft", n |-> ask, a |-> H(p), g |-> FHex(g), exp |-> S_(cev)],
        [op |-> "cifft", n |-> n, a |-> H(cev), g |-> FHex(g), exp |-> S_(InterpOn(cev, n, g))],
        [op |-> "cifft", n |-> n, a |-> H(v), g |-> FHex(g), exp |-> S_(InterpOn(v, n, g))],
        [op |-> "roots", n |-> ask, exp |-> S_(Roots(n) \o <<FInt(n), FInv(FInt(n)), FRoot(n), FInv(FRoot(n))>>)] >>
GroupTransforms(s, n) ==
  LET p == TLCEval(AnyVec(s, InLen(s, n)))  v == TLCEval(AnyVec(s + 1, IF InLen(s, n) > n THEN n ELSE InLen(s, n)))
      iv == TLCEval(InterpOn(v, n, F1))
      takes == << -1, n, 0, n \div 2, Rn(s, 61, n + 1), IF n > 1 THEN n - 1 ELSE 1 >>
  IN << [op |-> "fftg", n |-> AskSize(s, n), a |-> H(p), exp |-> G_(EvalOn(p, n, F1))],
        [op |-> "ifftg", n |-> n, a |-> H(v), exp |-> G_(iv)],
        [op |-> "normalize", a |-> H(v), exp |-> G_(v)] >>
     \o [t \in DOMAIN takes |-> [op |-> "ifftgn", n |-> n, a |-> H(v), take |-> takes[t], exp |-> G_(IF takes[t] < 0 THEN iv ELSE SubSeq(iv, 1, takes[t]))]]
(* ---- polynomials ---- *)
Distinct(s, k) == LET v == TLCEval([i \in 1..k |-> IF Rn(s, 70, 3) = 0 THEN FInt((i + Rn(s, 71, 5)) % (k + 4)) ELSE IF Rn(s, 70, 3) = 1 THEN FPow(FRoot(64), (i * 7) % 64) ELSE Rf(s, i)]) IN v
PLen(s, i) == CASE Rn(s, i, 9) = 0 -> 0 [] Rn(s, i, 9) = 1 -> 1 [] Rn(s, i, 9) = 2 -> 2 [] Rn(s, i, 9) = 3 -> 60 + Rn(s, i + 1, 80) [] Rn(s, i, 9) = 4 -> 2 ^ (2 + Rn(s, i + 1, 6)) [] OTHER -> Rn(s, i + 1, 40)
LLen(s, i) == CASE Rn(s, i, 4) = 0 -> 4096 [] Rn(s, i, 4) = 1 -> 500 + Rn(s, i + 1, 4000) [] OTHER -> PLen(s, i)      \* for the operations that are linear
Polys(s) ==
  LET a == TLCEval(AnyVec(s, PLen(s, 81)))  b == TLCEval(AnyVec(s + 7, PLen(s, 83)))
      x == CASE Rn(s, 85, 4) = 0 -> F0 [] Rn(s, 85, 4) = 1 -> Edge(s, 86) [] OTHER -> Rf(s, 86)
      k == IF Rn(s, 87, 10) = 0 THEN 20 + Rn(s, 88, 50) ELSE 2 + Rn(s, 87, 12)
      la == TLCEval(AnyVec(s + 15, LLen(s, 93)))  lb == TLCEval(AnyVec(s + 16, LLen(s, 95)))
      inv(v) == [i \in DOMAIN v |-> FInv(v[i])]
      xs == TLCEval(Distinct(s, k))  ys == TLCEval(AnyVec(s + 9, k))
      rts == TLCEval(AnyVec(s + 11, IF Rn(s, 97, 6) = 0 THEN PLen(s, 89) ELSE PLen(s, 89) % 24))
      nz == TLCEval([i \in 1..PLen(s, 91) |-> NonZeroF(s, 300 + i)])
      ez == TLCEval(SelectSeq([i \in 1..12 |-> Edge(s, 400 + i)], LAMBDA y : y # F0))
  IN << [op |-> "add", a |-> H(a), b |-> H(b), exp |-> P_(PAdd(a, b))],
        [op |-> "add", a |-> H(b), b |-> H(a), exp |-> P_(PAdd(a, b))],
        [op |-> "sub", a |-> H(a), b |-> H(b), exp |-> P_(PSub(a, b))],
        [op |-> "sub", a |-> H(b), b |-> H(a), exp |-> P_(PSub(b, a))],
        [op |-> "neg", a |-> H(a), exp |-> P_(PNeg(a))],
        [op |-> "mul", a |-> H(a), b |-> H(b), exp |-> P_(PMul(a, b))],
        [op |-> "mul", a |-> H(b), b |-> H(a), exp |-> P_(PMul(a, b))],
        [op |-> "eval", a |-> H(a), b |-> FHex(x), exp |-> S_(<<DefPEval(a, x)>>)],
        [op |-> "eval", a |-> H(b), b |-> FHex(x), exp |-> S_(<<DefPEval(b, x)>>)],
        [op |-> "vanish", a |-> H(rts), exp |-> P_(Vanishing(rts))],
        [op |-> "inv", a |-> H(nz), exp |-> S_([i \in DOMAIN nz |-> FInv(nz[i])])],
        [op |-> "inv", a |-> H(ez), exp |-> S_(inv(ez))],
        [op |-> "invpad", a |-> H(nz), b |-> H(ez), exp |-> S_(inv(nz) \o inv(ez))],
        [op |-> "invpad", a |-> H(ez), b |-> H(nz), exp |-> S_(inv(ez) \o inv(nz))],
        [op |-> "add", a |-> H(la), b |-> H(lb), exp |-> P_(PAdd(la, lb))],
        [op |-> "sub", a |-> H(la), b |-> H(lb), exp |-> P_(PSub(la, lb))],
        [op |-> "sub", a |-> H(la), b |-> H(la), exp |-> P_(<< >>)],
        [op |-> "neg", a |-> H(la), exp |-> P_(PNeg(la))],
        [op |-> "eval", a |-> H(la), b |-> FHex(x), exp |-> S_(<<DefPEval(la, x)>>)] >>
     \o (IF \A i, j \in 1..k : i # j => xs[i] # xs[j]
         THEN << [op |-> "interp", a |-> H(xs), b |-> H(ys), exp |-> P_(TLCEval(Lagrange(xs, ys)))] >> ELSE << >>)
     \o << [op |-> "mul", a |-> "", b |-> "", exp |-> P_(<< >>)] >>

Kinds == [i \in DOMAIN Sizes |-> <<"t", Sizes[i]>>] \o [i \in DOMAIN GSizes |-> <<"g", GSizes[i]>>] \o [i \in 1..28 |-> <<"p", 0>>]
Jobs == {<<r, z>> : r \in From..(From + Rounds - 1), z \in DOMAIN Kinds}
SeedOf(j) == j[1] * 1000 + j[2]
Init == job \in Jobs /\ step = 0 /\ log = << >>
Work == step = 0 /\ step' = 1 /\ UNCHANGED job
  /\ LET k == Kinds[job[2]] s == SeedOf(job) * 20 IN
     log' = TLCEval(CASE k[1] = "t" -> Transforms(s, k[2]) [] k[1] = "g" -> GroupTransforms(s, k[2]) [] OTHER -> Polys(s) \o Polys(s + 13))
Finish == step = 1 /\ step' = 2 /\ UNCHANGED <<job, log>>
  /\ Emit("cases.ndjson", [kind |-> "lib", id |-> ToString(SeedOf(job)), params |-> Kinds[job[2]], steps |-> log])
Next == Work \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, step>>
=============================================================================
