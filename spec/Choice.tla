------------------------------- MODULE Choice -------------------------------
(***************************************************************************)
(* Choices of the environment: functions of (SeedEnv, s), so that a        *)
(* behaviour is determined by the seed of the run and the job.             *)
(***************************************************************************)
EXTENDS Poly, Emit

R_(s, i) == Hash31(<<SeedEnv, s>>, i)          \* pseudo-random in 0 .. 2^31-1
Rn(s, i, n) == R_(s, i) % n
Rf(s, i) == FRand(R_(s, 0), i)                 \* pseudo-random field element

Two == FInt(2)
Half == FInv(Two)
(* Scalars at the edges of representation, recoding windows and byte boundaries. *)
Rep(w, off) == FoldLeft(LAMBDA acc, i : FAdd(FMul(acc, FPow(Two, w)), FPow(Two, off)), F0, [i \in 1..(254 \div w) |-> i])
EdgeScalars == Once("EdgeScalars",
  << F0, F1, FNeg(F1), Two, FNeg(Two), FInt(3), Half, FNeg(Half),
     FInt(255), FInt(256), FInt(65535), FInt(65536), FNeg(FInt(65536)) >>
  \o [i \in 1..31 |-> FPow(Two, 8 * i)] \o [i \in 1..16 |-> FSub(FPow(Two, 15 * i), F1)]
  \o [i \in 1..16 |-> FNeg(FPow(Two, 15 * i + 1))]
  \o [w \in 1..12 |-> Rep(w + 1, w)] \o [w \in 1..12 |-> Rep(w + 1, 0)] \o [w \in 1..12 |-> FNeg(Rep(w + 1, w))]
  \o << FPow(Two, 254), FSub(FPow(Two, 254), F1), FNeg(FPow(Two, 253)), FSub(FPow(Two, 128), F1), FPow(Two, 64), FPow(Two, 127) >>)
Edge(s, i) == EdgeScalars[1 + Rn(s, i, Len(EdgeScalars))]
NonZeroF(s, i) == LET x == Rf(s, i) IN IF x = F0 THEN F1 ELSE x

(* a sequence of n scalars of a structurally different kind per class *)
VecClasses == << "random", "edges", "zeros", "sparse", "const", "alternating", "unit", "small", "suffix", "prefix" >>
Vec(c, s, n) == TLCEval(
  CASE c = "random" -> RandSeq(R_(s, 0), 0, n)
    [] c = "edges"  -> [i \in 1..n |-> Edge(s, i)]
    [] c = "zeros"  -> [i \in 1..n |-> F0]
    [] c = "sparse" -> LET pos == {1 + Rn(s, 10 + t, n + 1) : t \in 1..3} IN [i \in 1..n |-> IF i \in pos THEN NonZeroF(s, i) ELSE F0]
    [] c = "const"  -> LET v == Edge(s, 1) IN [i \in 1..n |-> v]
    [] c = "alternating" -> LET v == NonZeroF(s, 1) w == Edge(s, 2) st == 2 ^ Rn(s, 3, Log2(n + 1) + 1) IN [i \in 1..n |-> IF ((i - 1) \div st) % 2 = 0 THEN v ELSE w]
    [] c = "unit"   -> LET p == 1 + Rn(s, 1, n + 1) IN [i \in 1..n |-> IF i = p THEN F1 ELSE F0]
    [] c = "small"  -> [i \in 1..n |-> FInt(Rn(s, i, 4))]
    [] c = "suffix" -> LET a == Rn(s, 1, n + 1) IN [i \in 1..n |-> IF i > a THEN Rf(s, i) ELSE F0]
    [] c = "prefix" -> LET a == Rn(s, 1, n + 1) IN [i \in 1..n |-> IF i <= a THEN Rf(s, i) ELSE F0])
AnyVec(s, n) == Vec(VecClasses[1 + Rn(s, 900, Len(VecClasses))], s, n)
=============================================================================
