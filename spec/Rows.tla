-------------------------------- MODULE Rows --------------------------------
(***************************************************************************)
(* The environment of batch verification: genuine openings of many kinds,  *)
(* edits of a batch, what an adversary does, and their encodings.          *)
(***************************************************************************)
EXTENDS Das, Blobs

(* ---- genuine rows ---- *)
RowTypes == << "algebra", "samecom", "twocom", "negated", "repeat", "idproof", "idcom", "zero", "sparse", "sparseone", "const", "mixed", "edgecell", "allidx", "column", "samecell", "inorder", "onecell", "sameproof" >>
IdxFor(s, i, t) == IF t \in {"samecom", "sparseone", "allidx"} THEN (Rn(s, 7, K) + (2 * Rn(s, 8, K \div 2) + 1) * (i - 1)) % K 
                   ELSE IF t \in {"column", "onecell"} THEN Rn(s, 7, K) ELSE IF t = "inorder" THEN (i - 1) % K ELSE Rn(s, 5000 + i, K)
FromInterp(q, k) == BitRev(CosetFFT(q, M, CosetShift(k)))      \* the cell whose interpolant is q
RandInterp(s, i) == RandSeq(R_(s, 0), 100000 + 1000 * (i % 2000), M)
EdgeInterp(s, i) == TLCEval([j \in 1..M |-> Edge(s, 100000 + 1000 * (i % 2000) + j)])
AlgRow(com, k, q, tau) == [com |-> com, k |-> k, cell |-> FromInterp(q, k), proof |-> FMul(FSub(com, PEval(q, tau)), FInv(FSub(FPow(tau, M), CosetConst(k))))]
(* a sparse polynomial as function degree -> coefficient; its remainder modulo X^M - c, and its value at tau *)
SparseRem(f, c) == TLCEval([j \in 1..M |-> Sum(SetToSeq({}) \o [x \in 1..Len(f) |-> IF f[x][1] % M = j - 1 THEN FMul(f[x][2], FPow(c, f[x][1] \div M)) ELSE F0])])
SparseAt(f, x) == Sum([i \in 1..Len(f) |-> FMul(f[i][2], FPow(x, f[i][1]))])
SparseTerms(s, n) == TLCEval([i \in 1..n |-> <<Degree(s, 30 + 2 * i), NonZeroF(s, 60 + i)>>])   \* degrees may repeat: the terms add up
RECURSIVE Row(_, _, _, _)
Row(s, i, t, tau) ==
  LET k == IdxFor(s, i, t) IN
  CASE t = "algebra"  -> AlgRow(Rf(s, 10 * i), k, RandInterp(s, i), tau)
    [] t = "samecom" -> AlgRow(Rf(s, 3), k, RandInterp(s, i), tau)
    [] t = "inorder" -> AlgRow(Rf(s, 3 + (i \div K)), k, RandInterp(s, i), tau)      \* the cells of one blob after the other
    [] t = "column"  -> AlgRow(Rf(s, 10 * i), k, RandInterp(s, i), tau)               \* one cell of many blobs
    [] t = "onecell" -> AlgRow(Rf(s, 3), k, RandInterp(s, i), tau)                    \* many claims about one cell
    [] t = "samecell" -> AlgRow(Rf(s, 10 * i), k, RandInterp(s, 1), tau)              \* one cell value of many blobs
    [] t = "sameproof" -> LET q == RandInterp(s, i) pf == Rf(s, 3)
                          IN [com |-> FAdd(PEval(q, tau), FMul(pf, FSub(FPow(tau, M), CosetConst(k)))), k |-> k, cell |-> FromInterp(q, k), proof |-> pf]
    [] t = "allidx"  -> AlgRow(Rf(s, 3 + (i \div K)), k, RandInterp(s, i), tau)
    [] t = "twocom"   -> AlgRow(Rf(s, 3 + (i % 2)), k, RandInterp(s, i), tau)
    [] t = "negated"  -> IF i % 2 = 1 THEN AlgRow(Rf(s, 10 * i), k, RandInterp(s, i), tau)
                         ELSE LET r == Row(s, i - 1, t, tau) IN
                              [com |-> FNeg(r.com), k |-> r.k, cell |-> PNeg(r.cell), proof |-> FNeg(r.proof)]
    [] t = "repeat"   -> AlgRow(Rf(s, 10 * (i % 3)), Rn(s, 20 + (i % 3), K), RandInterp(s, i % 3), tau)
    [] t = "idproof"  -> LET q == RandInterp(s, i) IN AlgRow(PEval(q, tau), k, q, tau)
    [] t = "idcom"    -> AlgRow(F0, k, RandInterp(s, i), tau)
    [] t = "zero"     -> [com |-> F0, k |-> k, cell |-> Zeros(M), proof |-> F0]
    [] t = "edgecell" -> AlgRow(Edge(s, 10 * i), k, EdgeInterp(s, i), tau)
    [] t = "const"    -> LET v == Edge(s, 40 + i) IN [com |-> v, k |-> k, cell |-> [j \in 1..M |-> v], proof |-> F0]
    [] t \in {"sparse", "sparseone"} ->
         LET f == SparseTerms(IF t = "sparse" THEN s + 7919 * i ELSE s, 3) IN AlgRow(SparseAt(f, tau), k, SparseRem(f, CosetConst(k)), tau)
    [] t = "mixed"    -> Row(s, i, RowTypes[1 + Rn(s, 9000 + i, 10)], tau)
LoadBatch(s, t, n, tau) ==
  LET rows == TLCEval([i \in 1..n |-> TLCEval(Row(s, i, t, tau))])
  IN Refresh([coms |-> TLCEval([i \in 1..n |-> Pt(rows[i].com)]), idx |-> TLCEval([i \in 1..n |-> rows[i].k]),
              cells |-> TLCEval([i \in 1..n |-> CellV(rows[i].cell)]), proofs |-> TLCEval([i \in 1..n |-> Pt(rows[i].proof)]), verd |-> << >>], {}, tau)

(* ---- edits ---- *)
Again(s) == IF s = << >> THEN s ELSE Append(s, Last(s))
Drop(s) == SubSeq(s, 1, Len(s) - 1)
Apply(bb, e, gd, tau) ==
  CASE e[1] = "com"   -> SetCom(bb, e[2], e[3], tau)
    [] e[1] = "idx"   -> SetIdx(bb, e[2], e[3], tau)
    [] e[1] = "cell"  -> SetCell(bb, e[2], e[3], tau)
    [] e[1] = "proof" -> SetProof(bb, e[2], e[3], tau)
    [] e[1] = "rows"  -> TakeRows(bb, e[2])
    [] e[1] = "restore" -> gd
    [] e[1] = "save"  -> bb
    [] e[1] = "pop"   -> Refresh(CASE e[2] = "coms" -> [bb EXCEPT !.coms = Drop(@)] [] e[2] = "idx" -> [bb EXCEPT !.idx = Drop(@)]
                            [] e[2] = "cells" -> [bb EXCEPT !.cells = Drop(@)] [] e[2] = "proofs" -> [bb EXCEPT !.proofs = Drop(@)], {}, tau)
    [] e[1] = "dup"   -> Refresh(CASE e[2] = "coms" -> [bb EXCEPT !.coms = Again(@)] [] e[2] = "idx" -> [bb EXCEPT !.idx = Again(@)]
                            [] e[2] = "cells" -> [bb EXCEPT !.cells = Again(@)] [] e[2] = "proofs" -> [bb EXCEPT !.proofs = Again(@)], {}, tau)
    [] e[1] = "clear" -> Refresh(CASE e[2] = "coms" -> [bb EXCEPT !.coms = << >>] [] e[2] = "idx" -> [bb EXCEPT !.idx = << >>]
                            [] e[2] = "cells" -> [bb EXCEPT !.cells = << >>] [] e[2] = "proofs" -> [bb EXCEPT !.proofs = << >>], {}, tau)
ApplyAll(bb, es, gd, tau) == FoldLeft(LAMBDA acc, e : TLCEval(Apply(acc, e, gd, tau)), bb, es)

EncPt(p) == IF p.bad = "" THEN FHex(p.d) ELSE "m:" \o p.bad \o (IF p.d = F0 THEN "" ELSE ":" \o FHex(p.d))
EncCell(c) == IF c.bad = << >> THEN FSeqHex(c.v)
              ELSE [base |-> FSeqHex(c.v), patch |-> [i \in DOMAIN c.bad |-> <<c.bad[i][1], FHexAlias(c.bad[i][2], c.bad[i][3])>>]]
EncEdit(e) ==
  CASE e[1] \in {"com", "proof"} -> <<e[1], e[2] - 1, EncPt(e[3])>>
    [] e[1] = "idx"  -> <<"idx", e[2] - 1, EncIdx(e[3])>>
    [] e[1] = "cell" -> <<"cell", e[2] - 1, EncCell(e[3])>>
    [] e[1] = "rows" -> <<"rows", [i \in DOMAIN e[2] |-> e[2][i] - 1]>>
    [] OTHER -> e
EncBatch(bb) == [coms |-> [i \in DOMAIN bb.coms |-> EncPt(bb.coms[i])], idx |-> [i \in DOMAIN bb.idx |-> EncIdx(bb.idx[i])],
                 cells |-> [i \in DOMAIN bb.cells |-> EncCell(bb.cells[i])], proofs |-> [i \in DOMAIN bb.proofs |-> EncPt(bb.proofs[i])]]

(* ---- what the adversary does ---- *)
Pos(s, x, n) ==    \* ends, block boundaries and arbitrary positions
  LET c == Rn(s, x, 6) IN
  IF c = 0 THEN 1 ELSE IF c = 1 THEN n ELSE IF c = 2 /\ n >= 64 THEN 64 ELSE IF c = 3 /\ n > 64 THEN 65 ELSE 1 + Rn(s, x + 1, n)
Pos2(s, x, n, i) == LET j == Pos(s, x, n) IN IF j # i THEN j ELSE IF i < n THEN i + 1 ELSE IF i > 1 THEN i - 1 ELSE i
PosM(s, x) == LET c == Rn(s, x, 4) IN IF c = 0 THEN 1 ELSE IF c = 1 THEN M ELSE 1 + Rn(s, x + 1, M)
Den(bb, i, tau) == FSub(FPow(tau, M), CosetConst(bb.idx[i]))
(* change tuple i so that it misses the equation by e, through component w *)
Miss(bb, i, e, w, tau) ==
  CASE w = 0 -> << <<"com", i, Pt(FAdd(bb.coms[i].d, e))>> >>
    [] w = 1 -> << <<"proof", i, Pt(FSub(bb.proofs[i].d, FMul(e, FInv(Den(bb, i, tau)))))>> >>
    [] w = 2 -> << <<"cell", i, CellV(TLCEval([j \in 1..M |-> FSub(bb.cells[i].v[j], e)]))>> >>

TamperKinds == << "el+1", "elrand", "elneg", "elzero", "elswap", "cellrot", "cellrev", "cellother", "cellbitrev",
   "proofrand", "proofneg", "proofid", "proofother", "proofcom", "proof+1", "comrand", "comneg", "comid", "comother", "com+1",
   "idx^1", "idx+64", "idxrand", "idxlow", "swapproofs", "swapcells", "swapcoms", "swapidx", "cancel2", "cancel3", "cancelall",
   "duptamperproof", "duptampercell", "duptampercom", "dupother", "negrow", "cellzero", "cancelpair", "scaled", "lastcoef" >>
Tamper(kind, s, bb, tau) ==
  LET n == Len(bb.idx)  i == Pos(s, 1, n)  j == Pos2(s, 3, n, i)  p == PosM(s, 5)  q == 1 + (p % M)
      cv == bb.cells[i].v  e == IF Rn(s, 9, 2) = 0 THEN F1 ELSE Rf(s, 11)
      wi == Rn(s, 21, 3)  wj == Rn(s, 22, 3)
      Self == [x \in 1..n |-> x]
  IN
  CASE kind = "el+1"    -> << <<"cell", i, CellV([cv EXCEPT ![p] = FAdd(@, F1)])>> >>
    [] kind = "elrand"  -> << <<"cell", i, CellV([cv EXCEPT ![p] = Rf(s, 12)])>> >>
    [] kind = "elneg"   -> << <<"cell", i, CellV([cv EXCEPT ![p] = FNeg(@)])>> >>
    [] kind = "elzero"  -> << <<"cell", i, CellV([cv EXCEPT ![p] = F0])>> >>
    [] kind = "elswap"  -> << <<"cell", i, CellV([cv EXCEPT ![p] = cv[q], ![q] = cv[p]])>> >>
    [] kind = "cellrot" -> << <<"cell", i, CellV(Tail(cv) \o << Head(cv) >>)>> >>
    [] kind = "cellrev" -> << <<"cell", i, CellV(Reverse(cv))>> >>
    [] kind = "cellbitrev" -> << <<"cell", i, CellV(BitRev(cv))>> >>
    [] kind = "cellzero"  -> << <<"cell", i, CellV(Zeros(M))>> >>
    [] kind = "cellother" -> << <<"cell", i, bb.cells[j]>> >>
    [] kind = "proofrand" -> << <<"proof", i, Pt(Rf(s, 12))>> >>
    [] kind = "proofneg"  -> << <<"proof", i, Pt(FNeg(bb.proofs[i].d))>> >>
    [] kind = "proofid"   -> << <<"proof", i, Pt(F0)>> >>
    [] kind = "proofother" -> << <<"proof", i, bb.proofs[j]>> >>
    [] kind = "proofcom"  -> << <<"proof", i, bb.coms[i]>> >>
    [] kind = "proof+1"   -> << <<"proof", i, Pt(FAdd(bb.proofs[i].d, F1))>> >>
    [] kind = "comrand"   -> << <<"com", i, Pt(Rf(s, 12))>> >>
    [] kind = "comneg"    -> << <<"com", i, Pt(FNeg(bb.coms[i].d))>> >>
    [] kind = "comid"     -> << <<"com", i, Pt(F0)>> >>
    [] kind = "comother"  -> << <<"com", i, bb.coms[j]>> >>
    [] kind = "com+1"     -> << <<"com", i, Pt(FAdd(bb.coms[i].d, F1))>> >>
    [] kind = "idx^1"     -> << <<"idx", i, IF bb.idx[i] % 2 = 0 THEN bb.idx[i] + 1 ELSE bb.idx[i] - 1>> >>
    [] kind = "idx+64"    -> << <<"idx", i, (bb.idx[i] + K \div 2) % K>> >>
    [] kind = "idxrand"   -> << <<"idx", i, Rn(s, 12, K)>> >>
    [] kind = "idxlow"    -> << <<"idx", i, RevBits(bb.idx[i], Log2(K))>> >>
    [] kind = "swapproofs" -> << <<"proof", i, bb.proofs[j]>>, <<"proof", j, bb.proofs[i]>> >>
    [] kind = "swapcells"  -> << <<"cell", i, bb.cells[j]>>, <<"cell", j, bb.cells[i]>> >>
    [] kind = "swapcoms"   -> << <<"com", i, bb.coms[j]>>, <<"com", j, bb.coms[i]>> >>
    [] kind = "swapidx"    -> << <<"idx", i, bb.idx[j]>>, <<"idx", j, bb.idx[i]>> >>
    [] kind = "cancel2"    -> IF i = j THEN Miss(bb, i, e, wi, tau) ELSE Miss(bb, i, e, wi, tau) \o Miss(bb, j, FNeg(e), wj, tau)
    [] kind = "cancelpair" -> IF i = j THEN Miss(bb, i, e, wi, tau) ELSE Miss(bb, i, e, wi, tau) \o Miss(bb, j, FNeg(e), wi, tau)
    [] kind = "cancel3"    -> LET l == Pos2(s, 13, n, j) IN
          IF n < 3 \/ i = j \/ l = i THEN Miss(bb, i, e, wi, tau)
          ELSE Miss(bb, i, e, wi, tau) \o Miss(bb, j, e, wj, tau) \o Miss(bb, l, FNeg(FAdd(e, e)), wi, tau)
    [] kind = "cancelall"  ->   \* every tuple off, the total zero
          IF n = 1 THEN Miss(bb, 1, e, wi, tau)
          ELSE FoldLeft(LAMBDA acc, x : acc \o Miss(bb, x, IF x < n THEN Rf(s, 2000 + x) ELSE FNeg(Sum([y \in 1..(n-1) |-> Rf(s, 2000 + y)])), (x + wi) % 2, tau), << >>, Self)
    [] kind = "scaled"     ->   \* everything in one tuple multiplied except one component
          LET v == NonZeroF(s, 12) IN << <<"com", i, Pt(FMul(v, bb.coms[i].d))>>, <<"cell", i, CellV(PScale(cv, v))>> >>
    [] kind = "lastcoef"   ->   \* change only the highest coefficient of the interpolant
          << <<"cell", i, CellV(PAdd(cv, FromInterp([x \in 1..M |-> IF x = M THEN F1 ELSE F0], bb.idx[i])))>> >>
    [] kind = "duptamperproof" -> << <<"rows", Append(Self, i)>>, <<"proof", IF Rn(s, 14, 2) = 0 THEN n + 1 ELSE i, Pt(Rf(s, 12))>> >>
    [] kind = "duptampercell"  -> << <<"rows", Append(Self, i)>>, <<"cell", IF Rn(s, 14, 2) = 0 THEN n + 1 ELSE i, CellV([cv EXCEPT ![p] = FAdd(@, F1)])>> >>
    [] kind = "duptampercom"   -> << <<"rows", Append(Self, i)>>, <<"com", IF Rn(s, 14, 2) = 0 THEN n + 1 ELSE i, Pt(FNeg(bb.coms[i].d))>> >>
    [] kind = "dupother"       -> << <<"rows", Append(Self, i)>>, <<"cell", n + 1, bb.cells[j]>> >>
    [] kind = "negrow"         -> << <<"com", i, Pt(FNeg(bb.coms[i].d))>>, <<"proof", i, Pt(FNeg(bb.proofs[i].d))>> >>

BadPoints == << "nocomp", "infflag", "infsign", "infjunk", "infnocomp", "zeros", "ones", "xgep", "xplusp", "xmax", "offcurve", "notsub", "order3", "torsion", "uncompressed" >>
Lists == << "coms", "idx", "cells", "proofs" >>
(* genuine openings displaced by points outside the subgroup, which the pairing does not see: one, two or three that cancel in a sum, or all *)
NearKinds == << "proof", "com", "proofs", "coms", "comproof", "proofs3", "coms3", "allproofs", "allcoms" >>
Near(kind, s, bb, i, j, w) ==
  LET n == Len(bb.idx)  o == IF Rn(s, 91, 2) = 0 THEN "torsion" ELSE "third"
      NC(x, sg) == <<"com", x, NearPt(bb.coms[x].d, o \o sg, w)>>  NP(x, sg) == <<"proof", x, NearPt(bb.proofs[x].d, o \o sg, w)>>
      N3(x, l) == <<l, x, NearPt(IF l = "com" THEN bb.coms[x].d ELSE bb.proofs[x].d, "third+", w)>>
      Sg(x) == IF x % 2 = 1 THEN "+" ELSE "-"
      l == Pos2(s, 93, n, j)
  IN
  CASE kind = "proof" -> << NP(i, "+") >>
    [] kind = "com"   -> << NC(i, "-") >>
    [] kind = "proofs" -> << NP(i, "+"), NP(j, "-") >>
    [] kind = "coms"   -> << NC(i, "+"), NC(j, "-") >>
    [] kind = "comproof" -> << NC(i, "+"), NP(i, "-") >>
    [] kind = "proofs3"  -> << N3(i, "proof"), N3(j, "proof"), N3(l, "proof") >>
    [] kind = "coms3"    -> << N3(i, "com"), N3(j, "com"), N3(l, "com") >>
    [] kind = "allproofs" -> [x \in 1..n |-> NP(x, Sg(x))]
    [] kind = "allcoms"   -> [x \in 1..n |-> NC(x, Sg(x))]
MalformKinds == [i \in 1..(2 * Len(BadPoints)) |-> <<IF i % 2 = 0 THEN "badcom" ELSE "badproof", BadPoints[(i + 1) \div 2]>>]
   \o << <<"badscalar", 1>>, <<"badscalar", 2>>, <<"badscalarzero", 1>>, <<"badscalar", 1>>, <<"allbadcell", 1>>, <<"badscalarfalse", 1>> >>
   \o [i \in 1..4 |-> <<"pop", Lists[i]>>] \o [i \in 1..4 |-> <<"dup", Lists[i]>>] \o [i \in 1..4 |-> <<"clear", Lists[i]>>]
   \o << <<"idxbig", K>>, <<"idxbig", K + 1>>, <<"idxbig", 2 * K>>, <<"idxbig", 2 * N>>, <<"idxbig", 255>>, <<"idxbig", 256>>, <<"idxbig", 65536>>, <<"idxbig", 2147483647>> >>
   \o [i \in 1..Len(HugeIndex) |-> <<"idxbig", 0 - i>>]
   \o << <<"poptwo", "x">>, <<"popthree", "x">>, <<"onlyidx", "x">>, <<"badandfalse", "x">>, <<"badeverything", "x">>, <<"badcomshared", "notsub">>, <<"swaplen", "x">>,
         <<"none", "x">>, <<"false", "x">>, <<"empty", "x">> >>
   \o [i \in 1..Len(NearKinds) |-> <<"near", NearKinds[i]>>]
Malform(kind, s, bb, tau) ==
  LET n == Len(bb.idx) i == Pos(s, 1, n) j == Pos2(s, 3, n, i) p == PosM(s, 5) v == bb.cells[i].v w == Rn(s, 15, 4)
      x == IF Rn(s, 16, 2) = 0 THEN v[p] ELSE F0
      alias(a, m) == IF FHexAlias(a, m) = "" THEN <<p - 1, F0, m>> ELSE <<p - 1, a, m>>
  IN
  CASE kind[1] = "badcom"   -> << <<"com", i, BadPt(kind[2], w)>> >>
    [] kind[1] = "badproof" -> << <<"proof", i, BadPt(kind[2], w)>> >>
    [] kind[1] = "badcomshared" -> << <<"com", i, BadPt(kind[2], w)>>, <<"com", j, BadPt(kind[2], w)>> >>
    [] kind[1] = "badscalar" -> << <<"cell", i, [v |-> v, bad |-> << alias(x, kind[2]) >>]>> >>
    [] kind[1] = "badscalarzero" -> << <<"cell", i, [v |-> [v EXCEPT ![p] = F0], bad |-> << <<p - 1, F0, 1>> >>]>> >>
    [] kind[1] = "badscalarfalse" -> << <<"cell", i, [v |-> v, bad |-> << <<p - 1, FAdd(v[p], F1), 1>> >>]>> >>
    [] kind[1] = "allbadcell" -> << <<"cell", i, [v |-> v, bad |-> [y \in 1..M |-> <<y - 1, v[y], 1>>]]>> >>
    [] kind[1] \in {"pop", "dup", "clear"} -> << <<kind[1], kind[2]>> >>
    [] kind[1] = "poptwo"   -> << <<"pop", Lists[1 + Rn(s, 17, 2)]>>, <<"pop", Lists[3 + Rn(s, 18, 2)]>> >>
    [] kind[1] = "popthree" -> LET keep == 1 + Rn(s, 17, 4) IN [y \in 1..3 |-> <<"pop", Lists[IF y < keep THEN y ELSE y + 1]>>]
    [] kind[1] = "onlyidx"  -> LET keep == 1 + Rn(s, 17, 4) IN [y \in 1..3 |-> <<"clear", Lists[IF y < keep THEN y ELSE y + 1]>>]
    [] kind[1] = "swaplen"  -> << <<"pop", Lists[1 + Rn(s, 17, 4)]>>, <<"dup", Lists[1 + Rn(s, 18, 4)]>> >>
    [] kind[1] = "idxbig"   -> << <<"idx", i, kind[2]>> >>
    [] kind[1] = "badandfalse" -> << <<"com", i, BadPt(BadPoints[1 + Rn(s, 19, Len(BadPoints))], w)>>, <<"proof", j, Pt(Rf(s, 12))>> >>
    [] kind[1] = "badeverything" -> << <<"com", i, BadPt("notsub", w)>>, <<"idx", j, K>>, <<"cell", i, [v |-> v, bad |-> << <<p - 1, v[p], 1>> >>]>>, <<"pop", "proofs">> >>
    [] kind[1] = "near"     -> Near(kind[2], s, bb, i, j, w)
    [] kind[1] = "none"     -> << >>
    [] kind[1] = "false"    -> << <<"proof", i, Pt(Rf(s, 12))>> >>
    [] kind[1] = "empty"    -> [y \in 1..4 |-> <<"clear", Lists[y]>>]

(* ---- reorderings that keep every tuple genuine ---- *)
Shuffle(s, n) == LET st == 2 * Rn(s, 31, n) + 1 o == Rn(s, 32, n) IN       \* an affine permutation when gcd(st, n) = 1, otherwise a selection with repetition
  [i \in 1..n |-> 1 + ((st * (i - 1) + o) % n)]
Reorder(kind, s, n) ==
  CASE kind = 0 -> [i \in 1..n |-> n + 1 - i]
    [] kind = 1 -> Shuffle(s, n)
    [] kind = 2 -> [i \in 1..(n + 1 + Rn(s, 33, 4)) |-> IF i <= n THEN i ELSE 1 + Rn(s, 40 + i, n)]
    [] kind = 3 -> [i \in 1..(IF n > 1 THEN n - 1 ELSE 1) |-> i]
    [] kind = 4 -> [i \in 1..(1 + Rn(s, 34, n)) |-> 1 + Rn(s, 40 + i, n)]
    [] kind = 5 -> [i \in 1..(n * 2) |-> 1 + ((i - 1) \div 2)]
    [] kind = 6 -> [i \in 1..n |-> 1]
    [] kind = 7 -> << >>
=============================================================================
