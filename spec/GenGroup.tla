------------------------------ MODULE GenGroup ------------------------------
(***************************************************************************)
(* Behaviours of the group helpers (C24).  Points of both groups are given *)
(* by discrete logarithms: a product of pairings is one exactly when the   *)
(* inner product of the logarithms is zero, normalisation keeps every      *)
(* logarithm, and the reduction of an integer a + j*R is a.                *)
(***************************************************************************)
EXTENDS Choice
CONSTANTS Rounds, From, Lens
VARIABLES job, step, log
vars == <<job, step, log>>
H(v) == FSeqHex(v)

(* ---- products of pairings ---- *)
PairKinds == << "balanced", "offone", "random", "opposites", "sameleft", "sameright", "swapped", "identities", "oneside", "edges", "telescope", "doubled", "almost" >>
(* pairs <<a, b>> of logarithms *)
Balance(ps) ==      \* the last left entry is chosen such that the sum is zero
  LET n == Len(ps) s == Sum([i \in 1..(n - 1) |-> FMul(ps[i][1], ps[i][2])])
      b == IF ps[n][2] = F0 THEN F1 ELSE ps[n][2]
  IN [ps EXCEPT ![n] = <<FNeg(FMul(s, FInv(b))), b>>]
Rnd(s, n) == TLCEval([i \in 1..n |-> <<Rf(s, 2 * i), Rf(s, 2 * i + 1)>>])
Pairs(c, s, n) == LET g == Rnd(s, n) IN TLCEval(
  CASE c = "balanced"  -> Balance(g)
    [] c = "offone"    -> LET b == Balance(g) IN [b EXCEPT ![1 + Rn(s, 50, n)] = <<FAdd(@[1], F1), @[2]>>]
    [] c = "random"    -> g
    [] c = "opposites" -> [i \in 1..n |-> IF i % 2 = 0 THEN <<FNeg(g[i - 1][1]), g[i - 1][2]>> ELSE g[i]]
    [] c = "sameleft"  -> Balance([i \in 1..n |-> <<g[1][1], IF i = n THEN g[i][2] ELSE g[1 + i \div 2][2]>>])
    [] c = "sameright" -> Balance([i \in 1..n |-> <<g[i][1], g[1][2]>>])
    [] c = "swapped"   -> [i \in 1..n |-> IF i % 2 = 0 THEN <<FNeg(g[i - 1][2]), g[i - 1][1]>> ELSE g[i]]
    [] c = "identities" -> Balance([i \in 1..n |-> LET k == Rn(s, 100 + i, 4) IN
                              IF k = 0 THEN <<F0, g[i][2]>> ELSE IF k = 1 THEN <<g[i][1], F0>> ELSE IF k = 2 THEN <<F0, F0>> ELSE g[i]])
    [] c = "oneside"   -> LET left == Rn(s, 51, 2) = 0 IN [i \in 1..n |-> IF left THEN <<F0, g[i][2]>> ELSE <<g[i][1], F0>>]
    [] c = "edges"     -> Balance([i \in 1..n |-> <<Edge(s, 2 * i), Edge(s, 2 * i + 1)>>])
    [] c = "telescope" -> [i \in 1..n |-> <<FSub(g[i][1], g[1 + (i % n)][1]), g[1][2]>>]      \* sums to zero round the cycle
    [] c = "doubled"   -> [i \in 1..n |-> g[1]]                                                \* n * a * b
    [] c = "almost"    -> LET b == Balance(g) IN [b EXCEPT ![n] = <<FNeg(@[1]), @[2]>>])
Holds(ps) == Sum([i \in DOMAIN ps |-> FMul(ps[i][1], ps[i][2])]) = F0
PairStep(ps) == [op |-> "pair", a |-> H([i \in DOMAIN ps |-> ps[i][1]]), b |-> H([i \in DOMAIN ps |-> ps[i][2]]), exp |-> [r |-> "n", v |-> <<IF Holds(ps) THEN 1 ELSE 0>>]]
PairSteps(s, n, c) ==
  LET ps == Pairs(PairKinds[1 + (c % Len(PairKinds))], s, n) IN
  << PairStep(ps), PairStep(Reverse(ps)), PairStep([i \in DOMAIN ps |-> <<ps[i][2], ps[i][1]>>]),
     PairStep([i \in DOMAIN ps |-> <<FNeg(ps[i][1]), ps[i][2]>>]), PairStep(Append(ps, <<F0, F1>>)), PairStep(Append(ps, <<F1, F1>>)) >>
(* ---- normalisation ---- *)
NormVec(s, n) == LET g == Rf(s, 0) IN TLCEval([i \in 1..n |->
     LET k == Rn(s, 100 + i, 6) IN CASE k = 0 -> F0 [] k = 1 -> Rf(s, 0) [] k = 2 -> FNeg(Rf(s, 0)) [] k = 3 -> FInt(Rn(s, 200 + i, 4)) [] OTHER -> Rf(s, i)])
NormClasses(s, n, c) == CASE c % 4 = 0 -> NormVec(s, n) [] c % 4 = 1 -> [i \in 1..n |-> F0] [] c % 4 = 2 -> RandSeq(R_(s, 0), 0, n)
                          [] OTHER -> [i \in 1..n |-> IF i = 1 + Rn(s, 9, n + 1) THEN F0 ELSE Rf(s, i)]
NormSteps(s, n, c) == LET v == TLCEval(NormClasses(s, n, c)) IN
  << [op |-> "normalize", a |-> H(v), exp |-> [r |-> "g", v |-> H(v)]] >>
  \o (IF n <= 40 THEN << [op |-> "normalize2", a |-> H(v), exp |-> [r |-> "g2s", v |-> H(v)]] >> ELSE << >>)
(* ---- reduction of 32 arbitrary bytes ---- *)
RedVal(s, i) == CASE Rn(s, 300 + i, 3) = 0 -> Edge(s, i) [] Rn(s, 300 + i, 3) = 1 -> FInt(Rn(s, 400 + i, 70000)) [] OTHER -> Rf(s, i)
RedSteps(s) == FlattenSeq([i \in 1..16 |->
   LET a == RedVal(s, i) IN
   FlattenSeq([j \in 1..3 |-> LET h == FHexAlias(a, j - 1) IN IF h = "" THEN << >> ELSE << [op |-> "reduce", x |-> h, exp |-> [r |-> "s", v |-> FHex(a)]] >>])])

Jobs == {<<r, z>> : r \in From..(From + Rounds - 1), z \in DOMAIN Lens}
SeedOf(j) == j[1] * 1000 + j[2]
Init == job \in Jobs /\ step = 0 /\ log = << >>
Work == step = 0 /\ step' = 1 /\ UNCHANGED job
  /\ LET s == SeedOf(job) * 20 c == job[1] * 5 + job[2] n == Lens[job[2]] IN
     log' = TLCEval((IF n > 0 THEN PairSteps(s, n, c) ELSE << PairStep(<< >>) >>) \o NormSteps(s + 1, n, c) \o RedSteps(s + 2))
Finish == step = 1 /\ step' = 2 /\ UNCHANGED <<job, log>>
  /\ Emit("cases.ndjson", [kind |-> "lib", id |-> ToString(SeedOf(job)), params |-> <<Lens[job[2]]>>, steps |-> log])
Next == Work \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, step>>
=============================================================================
