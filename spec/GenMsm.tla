------------------------------- MODULE GenMsm -------------------------------
(***************************************************************************)
(* Behaviours of the multi-scalar multiplication entry points (C17).       *)
(* Points are given by discrete logarithms, so the sum of products is a    *)
(* dot product.                                                            *)
(***************************************************************************)
EXTENDS Choice
CONSTANTS Rounds, From, Widths, Lens, BWidths
VARIABLES job, step, log
vars == <<job, step, log>>

H(v) == FSeqHex(v)
G1_(d) == [r |-> "g", v |-> FHex(d)]
(* points: in general position for the precomputed paths, with identities, repeats and opposites for the plain ones *)
General(s, n) == RandSeq(R_(s, 1), 1000, n)
PlainKinds == << "general", "identities", "repeats", "opposites", "allidentity", "onepoint", "smallmultiples", "mixed" >>
PlainPts(c, s, n) == LET g == TLCEval(General(s, n)) IN TLCEval(
  CASE c = "general" -> g
    [] c = "identities" -> [i \in 1..n |-> IF Rn(s, 100 + i, 2) = 0 THEN F0 ELSE g[i]]
    [] c = "repeats" -> [i \in 1..n |-> g[1 + Rn(s, 100 + i, (n + 2) \div 3)]]
    [] c = "opposites" -> [i \in 1..n |-> IF i % 2 = 0 THEN FNeg(g[i - 1]) ELSE g[i]]
    [] c = "allidentity" -> [i \in 1..n |-> F0]
    [] c = "onepoint" -> [i \in 1..n |-> g[1]]
    [] c = "smallmultiples" -> [i \in 1..n |-> FInt(i - 2)]
    [] c = "mixed" -> [i \in 1..n |-> LET k == Rn(s, 100 + i, 5) IN IF k = 0 THEN F0 ELSE IF k = 1 THEN g[1] ELSE IF k = 2 THEN FNeg(g[1]) ELSE g[i]])
(* scalars; "equal" makes whole windows identical, "cancel" makes the sum the identity for repeated points *)
ScalKinds == << "random", "edges", "zeros", "unit", "equal", "sparse", "lowbits", "topbits", "windows", "minus1", "cancel", "prefix" >>
Scal(c, s, n) == TLCEval(
  CASE c = "equal" -> LET v == Edge(s, 1) IN [i \in 1..n |-> v]
    [] c = "lowbits" -> [i \in 1..n |-> FInt(Rn(s, i, 2 ^ (1 + Rn(s, 900, 20))))]
    [] c = "topbits" -> [i \in 1..n |-> FSub(F0, FInt(1 + Rn(s, i, 2 ^ (1 + Rn(s, 900, 20)))))]
    [] c = "windows" -> [i \in 1..n |-> LET b == FPow(Two, Rn(s, 3 * i, 255)) d == FInt(Rn(s, 3 * i + 1, 3)) IN FSub(FAdd(b, d), F1)]
    [] c = "minus1" -> [i \in 1..n |-> FNeg(F1)]
    [] c = "cancel" -> LET v == NonZeroF(s, 1) IN [i \in 1..n |-> IF i % 2 = 0 THEN FNeg(v) ELSE v]
    [] c = "unit" -> Vec("unit", s, n)
    [] c = "random" -> Vec("random", s, n) [] c = "edges" -> Vec("edges", s, n) [] c = "zeros" -> Vec("zeros", s, n)
    [] c = "sparse" -> Vec("sparse", s, n) [] c = "prefix" -> Vec("prefix", s, n))
SK(c) == ScalKinds[1 + (c % Len(ScalKinds))]
PK(c) == PlainKinds[1 + (c % Len(PlainKinds))]

Mis(s, n) == IF Rn(s, 5, 2) = 0 /\ n > 0 THEN n - 1 ELSE n + 1 + Rn(s, 6, 2)
Plain(s, n, c) ==
  LET p == TLCEval(PlainPts(PK(c), s, n))  k == TLCEval(Scal(SK(c \div Len(PlainKinds) + c), s + 1, n))
      g == TLCEval([i \in 1..n |-> IF p[i] = F0 THEN F1 ELSE p[i]])
      m == TLCEval(Scal(SK(c), s + 2, Mis(s, n)))
      d == Dot(p, k)
  IN << [op |-> "lincomb", a |-> H(p), b |-> H(k), exp |-> G1_(d)],
        [op |-> "lincomb", a |-> H(p), b |-> H(m), exp |-> [r |-> "none"]],
        [op |-> "table", a |-> H(p), w |-> 0, exp |-> [r |-> "done"]],
        [op |-> "msm", b |-> H(k), exp |-> G1_(d)] >>
     \o (IF n > 0 THEN << [op |-> "lincomb_unsafe", a |-> H(g), b |-> H(k), exp |-> G1_(Dot(g, k))] >> ELSE << >>)
     \o << [op |-> "lincomb_unsafe", a |-> H(g), b |-> H(m), exp |-> [r |-> "none"]] >>
     \o (IF n <= 20 \/ c % 4 = 0 THEN
          << [op |-> "lincomb2", a |-> H(p), b |-> H(k), exp |-> [r |-> "g2", v |-> FHex(d)]],
             [op |-> "lincomb2", a |-> H(p), b |-> H(m), exp |-> [r |-> "none"]],
             [op |-> "lincomb2_unsafe", a |-> H(g), b |-> H(m), exp |-> [r |-> "none"]] >>
          \o (IF n > 0 THEN << [op |-> "lincomb2_unsafe", a |-> H(g), b |-> H(k), exp |-> [r |-> "g2", v |-> FHex(Dot(g, k))]] >> ELSE << >>)
         ELSE << >>)
Table(s, n, w, c) ==
  LET p == TLCEval(General(s, n)) K(i) == TLCEval(Scal(SK(c + i), s + i, n)) IN
  << [op |-> "table", a |-> H(p), w |-> w, exp |-> [r |-> "done"]] >>
  \o FlattenSeq([i \in 1..6 |-> LET k == K(i) IN << [op |-> "msmw", b |-> H(k), exp |-> G1_(Dot(p, k))], [op |-> "msm", b |-> H(k), exp |-> G1_(Dot(p, k))] >>])
BTable(s, n, w, c) ==
  LET p == TLCEval(General(s, n)) K(i) == TLCEval(Scal(SK(c + i), s + i, n)) IN
  << [op |-> "btable", a |-> H(p), w |-> w, exp |-> [r |-> "done"]] >>
  \o [i \in 1..4 |-> LET k == K(i) IN [op |-> "msmb", b |-> H(k), exp |-> G1_(Dot(p, k))]]
(* lengths of several sets added at once *)
SetSizes(s, c) == TLCEval(
  CASE c % 6 = 0 -> << 40 >> [] c % 6 = 1 -> << 0, 33, 0, 1, 2 >> [] c % 6 = 2 -> [i \in 1..20 |-> Rn(s, i, 4)]
    [] c % 6 = 3 -> << 1, 64, 3, 17, 0 >> [] c % 6 = 4 -> [i \in 1..(1 + Rn(s, 50, 8)) |-> Rn(s, i, 40)] [] OTHER -> [i \in 1..17 |-> 2])
Adds(s, n, c) ==
  LET p == TLCEval(General(s, n))
      rep == TLCEval([i \in 1..n |-> p[((i + 1) \div 2)]])          \* equal neighbours: doublings
      sz == SetSizes(s, c)
      tot == FoldLeft(LAMBDA acc, x : acc + x, 0, sz)
      q == TLCEval(General(s + 3, tot))
      off == [i \in 1..(Len(sz) + 1) |-> FoldLeft(LAMBDA acc, x : acc + x, 0, SubSeq(sz, 1, i - 1))]
  IN << [op |-> "batchadd", a |-> H(p), exp |-> G1_(Sum(p))], [op |-> "batchadd", a |-> H(rep), exp |-> G1_(Sum(rep))],
        [op |-> "multiadd", a |-> H(q), sizes |-> sz, exp |-> [r |-> "g", v |-> H([i \in DOMAIN sz |-> Sum(SubSeq(q, off[i] + 1, off[i + 1]))])]] >>

Kinds == [i \in DOMAIN Lens |-> <<"plain", Lens[i], 0>>]
         \o FlattenSeq([x \in DOMAIN Widths |-> << <<"table", 0, Widths[x]>> >>])
         \o [x \in DOMAIN BWidths |-> <<"btable", 0, BWidths[x]>>] \o [i \in 1..6 |-> <<"adds", 0, 0>>]
Jobs == {<<r, z>> : r \in From..(From + Rounds - 1), z \in DOMAIN Kinds}
SeedOf(j) == j[1] * 1000 + j[2]
LenFor(s, w) == IF w >= 11 THEN 1 + Rn(s, 7, 3) ELSE IF w >= 9 THEN 1 + Rn(s, 7, 20) ELSE CASE Rn(s, 7, 4) = 0 -> 64 [] Rn(s, 7, 4) = 1 -> 1 [] OTHER -> Rn(s, 8, 80)
Init == job \in Jobs /\ step = 0 /\ log = << >>
Work == step = 0 /\ step' = 1 /\ UNCHANGED job
  /\ LET k == Kinds[job[2]] s == SeedOf(job) * 20 c == job[1] * 7 + job[2] IN
     log' = TLCEval(CASE k[1] = "plain" -> Plain(s, k[2], c) [] k[1] = "table" -> Table(s, LenFor(s, k[3]), k[3], c)
                      [] k[1] = "btable" -> BTable(s, 1 + Rn(s, 9, 40), k[3], c) [] OTHER -> Adds(s, Rn(s, 10, 70), c))
Finish == step = 1 /\ step' = 2 /\ UNCHANGED <<job, log>>
  /\ Emit("cases.ndjson", [kind |-> "lib", id |-> ToString(SeedOf(job)), params |-> Kinds[job[2]], steps |-> log])
Next == Work \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, step>>
=============================================================================
