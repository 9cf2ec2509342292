------------------------------- MODULE Blobs -------------------------------
(***************************************************************************)
(* Environment of the system: which blobs and scalars are submitted.       *)
(* Every class is a structurally different kind of polynomial; s selects a *)
(* member.  All choices are functions of (SeedEnv, s).                     *)
(***************************************************************************)
EXTENDS Kzg, Choice

EvalClasses == << "zero", "single", "const", "prefix", "suffix", "sparse", "dense", "edges", "repcell", "alternating",
                  "onecell", "small", "edgeconst", "window", "geometric", "mirrored", "lastcell", "firstlast", "bandeval", "antiperiodic" >>
CoefClasses == << "monomial", "sparsecoef", "lowdegree", "vanishcell", "hightail", "evenpoly", "blockpoly", "edgecoef", "bandcoef",
                  "oddlow", "evenlow", "halfshift", "unitcoef", "unitblob" >>
Classes == EvalClasses \o CoefClasses

(* A residue class modulo a power of two, cut to a window whose ends are round numbers half of the time. *)
Cut(s, i) == IF Rn(s, i, 3) < 2 THEN 2 ^ Rn(s, i + 1, Log2(N) + 1) ELSE 1 + Rn(s, i + 1, N)
Band(s) == LET st == 2 ^ Rn(s, 501, Log2(N) - 1) o == Rn(s, 502, st) e == Cut(s, 503) lo == Rn(s, 505, 3)
           IN [st |-> st, o |-> o, lo |-> IF lo = 0 THEN 0 ELSE IF lo = 1 THEN N - e ELSE 0, hi |-> IF lo = 0 THEN e ELSE IF lo = 1 THEN N ELSE N \div 2]
InBand(b, i) == ((i % b.st) = b.o /\ i >= b.lo /\ i < b.hi) \/ (b.hi - b.lo <= b.st /\ i = b.lo)

EvalBlob(c, s) == TLCEval(
  CASE c = "zero"      -> [i \in 1..N |-> F0]
    [] c = "single"    -> LET j == 1 + Rn(s, 1, N) v == IF Rn(s, 2, 2) = 0 THEN Edge(s, 3) ELSE Rf(s, 3)
                          IN [i \in 1..N |-> IF i = j THEN v ELSE F0]
    [] c = "const"     -> LET v == NonZeroF(s, 1) IN [i \in 1..N |-> v]
    [] c = "edgeconst" -> LET v == Edge(s, 1) IN [i \in 1..N |-> v]
    [] c = "prefix"    -> LET n == Rn(s, 1, N) IN [i \in 1..N |-> IF i <= n THEN Rf(s, i) ELSE F0]
    [] c = "suffix"    -> LET n == Rn(s, 1, N) IN [i \in 1..N |-> IF i > n THEN Rf(s, i) ELSE F0]
    [] c = "window"    -> LET a == 1 + Rn(s, 1, N) l == 1 + Rn(s, 2, 2 * M)
                          IN [i \in 1..N |-> IF i >= a /\ i < a + l THEN Rf(s, i) ELSE F0]
    [] c = "sparse"    -> LET k == 1 + Rn(s, 1, 5) pos == {1 + Rn(s, 10 + t, N) : t \in 1..k}
                          IN [i \in 1..N |-> IF i \in pos THEN NonZeroF(s, i) ELSE F0]
    [] c = "dense"     -> RandSeq(R_(s, 0), 0, N)
    [] c = "edges"     -> [i \in 1..N |-> Edge(s, i)]
    [] c = "repcell"   -> LET v == [i \in 1..M |-> Rf(s, i)] IN [i \in 1..N |-> v[1 + ((i - 1) % M)]]
    [] c = "alternating" -> LET v == NonZeroF(s, 1) w == Edge(s, 2) st == 2 ^ Rn(s, 3, Log2(N))
                          IN [i \in 1..N |-> IF ((i - 1) \div st) % 2 = 0 THEN v ELSE w]
    [] c = "onecell"   -> LET k == Rn(s, 1, N \div M) IN [i \in 1..N |-> IF (i - 1) \div M = k THEN Rf(s, i) ELSE F0]
    [] c = "lastcell"  -> [i \in 1..N |-> IF (i - 1) \div M = (N \div M) - 1 THEN Edge(s, i) ELSE F1]
    [] c = "small"     -> [i \in 1..N |-> FInt(Rn(s, i, 256))]
    [] c = "geometric" -> LET q == PowersD(NonZeroF(s, 1), N) IN [i \in 1..N |-> q[i]]
    [] c = "mirrored"  -> [i \in 1..N |-> Rf(s, IF i <= N \div 2 THEN i ELSE N + 1 - i)]
    [] c = "firstlast" -> LET v == Edge(s, 1) w == Edge(s, 2) IN [i \in 1..N |-> IF i = 1 THEN v ELSE IF i = N THEN w ELSE F0]
    [] c = "bandeval"  -> LET b == Band(s) IN [i \in 1..N |-> IF InBand(b, i - 1) THEN NonZeroF(s, i) ELSE F0]
    [] c = "antiperiodic" -> LET h == 2 ^ Rn(s, 1, Log2(N)) sg == Rn(s, 2, 2) IN
                          [i \in 1..N |-> LET v == Rf(s, 10 + ((i - 1) % h)) IN IF ((i - 1) \div h) % 2 = 1 /\ sg = 0 THEN FNeg(v) ELSE v])

(* every value one, every value minus one, or each of them zero, one or minus one *)
Units(s) == LET w == (s \div 1000) % 3 IN
  [i \in 1..N |-> IF w = 0 THEN FNeg(F1) ELSE IF w = 1 THEN F1 ELSE LET v == Rn(s, i, 3) IN IF v = 0 THEN F0 ELSE IF v = 1 THEN F1 ELSE FNeg(F1)]
EdgeDegrees == << 0, 1, M - 1, M, M + 1, 2 * M - 1, 2 * M, N \div 2 - 1, N \div 2, N \div 2 + 1, N - M - 1, N - M, N - M + 1, N - 2, N - 1 >>
Degree(s, i) == IF Rn(s, i, 2) = 0 THEN EdgeDegrees[1 + Rn(s, i + 1, Len(EdgeDegrees))] ELSE Rn(s, i + 1, N)
SparsePoly(s, k) ==   \* k terms as a sequence of <<degree, coefficient>>, distinct degrees
  LET ds == {Degree(s, 20 + 2 * t) : t \in 1..k} IN [d \in ds |-> NonZeroF(s, 1000 + d)]
FromSparse(f) == TLCEval([i \in 1..N |-> IF (i - 1) \in DOMAIN f THEN f[i - 1] ELSE F0])

CoefPoly(c, s) == TLCEval(
  CASE c = "monomial"   -> LET d == Degree(s, 1) v == IF Rn(s, 3, 2) = 0 THEN F1 ELSE Edge(s, 4)
                           IN [i \in 1..N |-> IF i - 1 = d THEN v ELSE F0]
    [] c = "sparsecoef" -> FromSparse(SparsePoly(s, 1 + Rn(s, 1, 6)))
    [] c = "lowdegree"  -> LET d == Degree(s, 1) IN [i \in 1..N |-> IF i - 1 <= d THEN NonZeroF(s, i) ELSE F0]
    [] c = "vanishcell" -> LET k == Rn(s, 1, K) x == CosetConst(k) q == [i \in 1..(N - M) |-> IF Rn(s, 2, 3) = 0 /\ i > 5 THEN F0 ELSE Rf(s, i)]
                           IN [i \in 1..N |-> FSub(IF i > M THEN q[i - M] ELSE F0, IF i <= N - M THEN FMul(x, q[i]) ELSE F0)]
    [] c = "hightail"   -> LET d == Degree(s, 1) IN [i \in 1..N |-> IF i - 1 >= d THEN NonZeroF(s, i) ELSE F0]
    [] c = "evenpoly"   -> LET st == 2 ^ (1 + Rn(s, 1, Log2(N) - 1)) o == Rn(s, 2, st) IN [i \in 1..N |-> IF (i - 1) % st = o THEN Rf(s, i) ELSE F0]
    [] c = "blockpoly"  -> LET b == Rn(s, 1, N \div M) IN [i \in 1..N |-> IF (i - 1) \div M = b THEN Rf(s, i) ELSE F0]
    [] c = "edgecoef"   -> [i \in 1..N |-> Edge(s, i)]
    [] c = "bandcoef"   -> LET b == Band(s) IN [i \in 1..N |-> IF InBand(b, i - 1) THEN NonZeroF(s, i) ELSE F0]
    [] c = "oddlow"     -> LET e == Cut(s, 503) IN [i \in 1..N |-> IF (i - 1) % 2 = 1 /\ i <= (IF e < 4 \/ e > N \div 2 THEN N \div 2 ELSE e) THEN NonZeroF(s, i) ELSE F0]
    [] c = "evenlow"    -> LET e == Cut(s, 503) IN [i \in 1..N |-> IF (i - 1) % 2 = 0 /\ i <= (IF e > N \div 2 THEN N \div 2 ELSE e) THEN NonZeroF(s, i) ELSE F0]
    [] c = "halfshift"  -> LET h == 2 ^ Rn(s, 1, Log2(N)) sg == Rn(s, 2, 2) IN
                           [i \in 1..N |-> LET v == Rf(s, 10 + ((i - 1) % h)) IN IF ((i - 1) \div h) % 2 = 1 /\ sg = 0 THEN FNeg(v) ELSE v]
    [] c = "unitcoef"   -> Units(s)
    [] c = "unitblob"   -> BlobToPoly(TLCEval(Units(s))))

IsEval(c) == \E i \in DOMAIN EvalClasses : EvalClasses[i] = c
(* [blob, poly] of a class member *)
Member(c, s) ==
  IF IsEval(c) THEN LET b == EvalBlob(c, s) IN [blob |-> b, poly |-> BlobToPoly(b)]
  ELSE LET p == CoefPoly(c, s) IN [blob |-> PolyToBlob(p), poly |-> p]

(* Trusted setup secrets used by a run: avoid the 2N-th roots of unity and zero (general position). *)
Taus == << FRand(SeedEnv, 700001), FRand(SeedEnv, 700002), FRand(SeedEnv, 700004), FNeg(FRand(SeedEnv, 700003)) >>
============================================================================
