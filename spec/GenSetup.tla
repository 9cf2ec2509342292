------------------------------ MODULE GenSetup ------------------------------
(***************************************************************************)
(* Trusted setups to load: well-formed ones with some secret and with what *)
(* the context has to answer then (group elements as discrete logarithms,  *)
(* or as linear forms in the powers of the unknown secret of the published *)
(* setup), and ones that differ from a well-formed setup in one respect.   *)
(***************************************************************************)
EXTENDS Blobs, SetupDefs
CONSTANTS Rounds, From
VARIABLES job, done
vars == <<job, done>>
Need1 == N
Need2 == M + 1
(* ---- flawed setups ---- *)
TextFlaws == << "missing g1", "missing g2", "missing lagrange", "truncated", "garbage", "empty", "array", "null list", "number", "trailing", "g1 string", "nested" >>
StrFlaws == << "noprefix", "short", "long", "odd", "nonhex", "blank", "other group", "spaced" >>
G1Flaws == << "nocomp", "infflag", "infsign", "infjunk", "infnocomp", "zeros", "ones", "xgep", "xplusp", "xmax", "offcurve", "uncompressed", "notsub", "order3", "torsion" >>
G2Flaws == << "nocomp", "infflag", "infsign", "infjunk", "infnocomp", "zeros", "ones", "c1gep", "c0gep", "c0plusp", "offcurve", "uncompressed", "notsub", "torsion" >>
KindOf(f) == CASE f = "offcurve" -> "offcurve" [] f \in {"notsub", "order3", "torsion"} -> "outside" [] OTHER -> "malformed"
Flaws == << [l |-> "text"] >> \o [i \in 1..Len(StrFlaws) |-> [l |-> "g1", f |-> StrFlaws[i]]] \o [i \in 1..Len(G1Flaws) |-> [l |-> "g1", f |-> G1Flaws[i]]]
         \o [i \in 1..Len(StrFlaws) |-> [l |-> "g2", f |-> StrFlaws[i]]] \o [i \in 1..Len(G2Flaws) |-> [l |-> "g2", f |-> G2Flaws[i]]]
Few1 == << 0, 1, 63, 64, 65, 66, 2048, 4095 >>
Few2 == << 0, 1, 2, 63, 64 >>
Modes == << "checked", "unchecked" >>
\* flaw numbers: points, texts, counts
NPoint == Len(Flaws) - 1
NFlaw == NPoint + Len(TextFlaws) + Len(Few1) + Len(Few2)
Rounds_ == From..(From + Rounds - 1)
FlawJobs == {<<"flaw", r, m, k>> : r \in Rounds_, m \in 1..2, k \in 1..NFlaw}
PosOf(l, s) ==
  LET n == IF l = "g1" THEN N ELSE M + 1 IN
  CASE Rn(s, 1, 5) = 0 -> n - 1 [] Rn(s, 1, 5) = 1 -> Rn(s, 2, 3) [] Rn(s, 1, 5) = 2 -> n - 1 - Rn(s, 2, IF l = "g1" THEN 100 ELSE 6) [] OTHER -> Rn(s, 2, n)
\* the same flawed point occupies place p of n points
Kinds(n, p, k) == TLCEval([i \in 1..n |-> IF i = p + 1 THEN k ELSE "good"])
Flawed(j) ==
  LET s == j[2] * 1000 + j[4] mode == Modes[j[3]] k == j[4]
      base == [kind |-> "setup", id |-> "flaw-" \o ToString(s) \o "-" \o mode, source |-> "secret", tau |-> FHex(Taus[1 + (j[2] % 4)]), mode |-> mode, n1 |-> N, n2 |-> M + 1, text |-> "plain", edits |-> << >>, steps |-> << >>]
      verdict(t, a, b) == IF Acceptable(mode, t, a, b, Need1, Need2) THEN "loaded" ELSE "refused"
      all(n) == Kinds(n, n, "good")
  IN CASE k <= NPoint ->
          LET f0 == Flaws[k + 1]
              \* decoders may refuse the point with coordinate zero as such, so it says nothing about the unchecked loader
              f == IF f0.f = "order3" /\ mode = "unchecked" THEN [f0 EXCEPT !.f = "notsub"] ELSE f0
              p == PosOf(f.l, s)
              outcome == IF f.l = "g1" THEN verdict(TRUE, Kinds(N, p, KindOf(f.f)), all(M + 1)) ELSE verdict(TRUE, all(N), Kinds(M + 1, p, KindOf(f.f)))
          IN [base EXCEPT !.edits = << <<f.l, p, f.f, Rn(s, 7, 4)>> >>] @@ [expect |-> outcome, flaw |-> f.l \o " " \o f.f]
       [] k <= NPoint + Len(TextFlaws) -> LET t == TextFlaws[k - NPoint] IN [base EXCEPT !.text = t] @@ [expect |-> verdict(FALSE, all(N), all(M + 1)), flaw |-> t]
       [] k <= NPoint + Len(TextFlaws) + Len(Few1) -> LET n == Few1[k - NPoint - Len(TextFlaws)] IN [base EXCEPT !.n1 = n] @@ [expect |-> verdict(TRUE, all(n), all(M + 1)), flaw |-> "too few g1"]
       [] OTHER -> LET n == Few2[k - NPoint - Len(TextFlaws) - Len(Few1)] IN [base EXCEPT !.n2 = n] @@ [expect |-> verdict(TRUE, all(N), all(n)), flaw |-> "too few g2"]
(* several points whose parts outside the subgroup cancel, and single ones with the smallest part there is *)
Several == << [l |-> "g1", c |-> <<"part+", "part-">>], [l |-> "g2", c |-> <<"part+", "part-">>], [l |-> "g1", c |-> <<"third+", "third-">>], [l |-> "g1", c |-> <<"third+", "third+", "third+">>],
              [l |-> "g1", c |-> <<"third-">>], [l |-> "g1", c |-> <<"third+">>], [l |-> "g2", c |-> <<"part+", "part-">>], [l |-> "g1", c |-> <<"part-", "part+">>],
              [l |-> "g1", c |-> <<"third+">>], [l |-> "g1", c |-> <<"third-">>], [l |-> "g1", c |-> <<"third+">>], [l |-> "g1", c |-> <<"third+">>] >>
SeveralJobs == {<<"several", r, m, k>> : r \in Rounds_, m \in 1..2, k \in DOMAIN Several}
SeveralFlawed(j) ==
  LET s == j[2] * 1000 + 300 + j[4] mode == Modes[j[3]] f == Several[j[4]]
      len == IF f.l = "g1" THEN N ELSE M + 1
      m == Len(f.c)
      at == CASE Rn(s, 1, 3) = 0 -> TLCEval([i \in 1..m |-> len - m + i - 1])              \* the last ones
              [] Rn(s, 1, 3) = 1 -> TLCEval([i \in 1..m |-> i])                             \* near the start
              [] OTHER -> LET o == Rn(s, 2, len \div m) IN TLCEval([i \in 1..m |-> (i - 1) * (len \div m) + o])
      kinds(n) == TLCEval([i \in 1..n |-> IF \E x \in 1..m : at[x] + 1 = i THEN "outside" ELSE "good"])
      all(n) == Kinds(n, n, "good")
      ok == IF f.l = "g1" THEN Acceptable(mode, TRUE, kinds(N), all(M + 1), Need1, Need2) ELSE Acceptable(mode, TRUE, all(N), kinds(M + 1), Need1, Need2)
  IN [kind |-> "setup", id |-> "several-" \o ToString(s) \o "-" \o mode, source |-> "secret", tau |-> FHex(Taus[1 + (j[2] % 4)]), mode |-> mode, n1 |-> N, n2 |-> M + 1, text |-> "plain",
      edits |-> TLCEval([i \in 1..m |-> <<f.l, at[i], f.c[i], 0>>]), steps |-> << >>, expect |-> IF ok THEN "loaded" ELSE "refused", flaw |-> f.l \o " outside the subgroup"]
(* ---- well-formed setups ---- *)
Secrets(s) == << Rf(s, 1), ExtRoots[2 * Rn(s, 3, N) + 2], ExtRoots[4 * Rn(s, 3, N \div 2) + 3], FNeg(Rf(s, 2)), FInv(Rf(s, 4)), FAdd(ExtRoots[6], F1),
                << Two, FNeg(F1), F0 >>[1 + Rn(s, 5, 3)], << F1, Half, FInt(3) >>[1 + Rn(s, 6, 3)] >>
NS == 8
GoodJobs == {<<"good", r, m, k>> : r \in Rounds_, m \in 1..2, k \in 1..NS}
Texts == << "plain", "spaces", "reordered" >>
Longer1 == << N, N, N + 1, N + 64, 2 * N >>
Longer2 == << M + 1, M + 2, M + 1, 2 * M + 7, M + 1 >>
Ask(p, tau) ==
  LET pt == Commit(p, tau) IN
  << [op |-> "commit", blob |-> FSeqHex(PolyToBlob(p)), exp |-> [r |-> "ok", com |-> FHex(pt)]],
     [op |-> "compute", blob |-> FSeqHex(PolyToBlob(p)),
      exp |-> [r |-> "ok", com |-> FHex(pt), cells |-> FSeqHex(Extend(p)), proofs |-> FSeqHex([k \in 1..K |-> Proof(p, k - 1, tau)])]] >>
Good(j) ==
  LET s == j[2] * 1000 + 500 + j[4] tau == Secrets(s)[j[4]] c == (s + j[3]) % 5
      p == TLCEval(Member(Classes[1 + (Rn(s, 9, Len(Classes)))], s).poly)
  IN [kind |-> "setup", id |-> "good-" \o ToString(s) \o "-" \o Modes[j[3]], source |-> "secret", tau |-> FHex(tau), mode |-> Modes[j[3]], n1 |-> Longer1[1 + c], n2 |-> Longer2[1 + ((c + Rn(s, 8, 5)) % 5)],
      text |-> Texts[1 + (s % 3)], edits |-> << >>, expect |-> "loaded", flaw |-> "", steps |-> Ask(p, tau)]
(* ---- the published setup: nobody knows the secret, so results are linear forms in its powers ---- *)
(* SHA-256 of its points: powers in the first group, Lagrange basis, powers in the second group *)
PublishedDigest == "753bd011b238fb9b63a35b9b526f7830057ced42b9a9c87368a67105bd8f0566"
Form(p) == SelectSeq(TLCEval([i \in 1..Len(p) |-> <<i - 1, FHex(p[i])>>]), LAMBDA e : e[2] # FHex(F0))
Sparse(s) == LET q == [i \in 1..(1 + Rn(s, 20, 2)) |-> <<IF i = 1 THEN <<0, N - 1, M - 1, M, N - M>>[1 + Rn(s, 21, 5)] ELSE Rn(s, 21 + i, N), NonZeroF(s, 30 + i)>>] IN
             TLCEval(FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e[1] + 1] = e[2]], [i \in 1..N |-> F0], q))
Sources == << "default", "default text" >>
PublishedJobs == {<<"published", r, m, k>> : r \in Rounds_, m \in 1..2, k \in 1..Len(Sources)}
Published(j) ==
  LET s == j[2] * 1000 + 900 + j[4] * 2 + j[3] p == Sparse(s) IN
  [kind |-> "setup", id |-> "published-" \o ToString(s), source |-> Sources[j[4]], tau |-> "mainnet", mode |-> Modes[j[3]], n1 |-> N, n2 |-> M + 1, text |-> "plain", edits |-> << >>, expect |-> "loaded", flaw |-> "", digest |-> PublishedDigest,
   steps |-> << [op |-> "commit", blob |-> FSeqHex(PolyToBlob(p)), exp |-> [r |-> "ok", com |-> <<Form(p)>>]],
                [op |-> "compute", blob |-> FSeqHex(PolyToBlob(p)), exp |-> [r |-> "ok", com |-> <<Form(p)>>, cells |-> FSeqHex(Extend(p)), proofs |-> TLCEval([k \in 1..K |-> Form(ProofPoly(p, k - 1))])]] >>]
Case(j) == CASE j[1] = "flaw" -> Flawed(j) [] j[1] = "several" -> SeveralFlawed(j) [] j[1] = "good" -> Good(j) [] OTHER -> Published(j)
Init == job \in FlawJobs \cup SeveralJobs \cup GoodJobs \cup PublishedJobs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED job /\ \E j \in {job} : Emit("cases.ndjson", Case(j))
Spec == Init /\ [][Next]_vars
=============================================================================
