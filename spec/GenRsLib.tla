------------------------------ MODULE GenRsLib ------------------------------
(* Behaviours of the coding library at the real field (C15). *)
EXTENDS RsLib, Choice, FiniteSets
CONSTANTS Rounds, From, MaxCw, Big, PerJob, PerBig
VARIABLES job, step, log
vars == <<job, step, log>>

H(v) == FSeqHex(v)
Pow2Upto(x) == {2 ^ t : t \in {u \in 0..13 : 2 ^ u <= x}}
Small == {[n |-> n, e |-> e, bs |-> b] : n \in Pow2Upto(MaxCw), e \in Pow2Upto(16), b \in Pow2Upto(MaxCw)}
Params == SetToSeq({x \in Small : x.n * x.e <= MaxCw /\ x.bs <= x.n * x.e}) \o Big

(* erasure lists: k indices below bs; the enumeration of all subsets when there are few blocks *)
SubsetNo(q, c) == SelectSeq([b \in 1..q.bs |-> IF (c \div (2 ^ (b - 1))) % 2 = 1 THEN b - 1 ELSE -1], LAMBDA x : x >= 0)
Perm(s, n) == SortSeq([i \in 1..n |-> i - 1], LAMBDA x, y : R_(s, 5000 + x) < R_(s, 5000 + y))
ErLists(q, s, c) == TLCEval(
  LET cap == Capacity(q) IN
  IF q.bs <= 5 THEN SubsetNo(q, c % (2 ^ q.bs))
  ELSE CASE c % 9 = 0 -> << >>
         [] c % 9 = 1 -> SubSeq(Perm(s, q.bs), 1, cap)
         [] c % 9 = 2 -> SubSeq(Perm(s, q.bs), 1, cap + 1)
         [] c % 9 = 3 -> [i \in 1..cap |-> i - 1]
         [] c % 9 = 4 -> [i \in 1..cap |-> q.bs - i]
         [] c % 9 = 5 -> LET st == Rn(s, 3, q.bs) IN [i \in 1..cap |-> (st + i) % q.bs]
         [] c % 9 = 6 -> SelectSeq([i \in 1..q.bs |-> IF (i - 1) % 2 = c % 2 THEN i - 1 ELSE -1], LAMBDA x : x >= 0)
         [] c % 9 = 7 -> SubSeq(Perm(s, q.bs), 1, Rn(s, 4, cap + 1))
         [] OTHER -> SubSeq(Perm(s, q.bs), 1, 1 + Rn(s, 4, q.bs)))
Surv(q, er) == CwLen(q) - Cardinality({er[i] : i \in DOMAIN er}) * NumBlocks(q)
(* erased positions carry anything *)
Garbled(q, er, cw, s) == LET es == TLCEval(ErSet(er)) IN TLCEval([i \in 1..Len(cw) |-> IF ErasedIn(q, es, i - 1) THEN (IF Rn(s, 7, 2) = 0 THEN F0 ELSE Rf(s, 10000 + i)) ELSE cw[i]])
SurvPos(q, er) == LET es == TLCEval(ErSet(er)) IN TLCEval(SelectSeq([i \in 1..CwLen(q) |-> i], LAMBDA i : ~ErasedIn(q, es, i - 1)))
Ok_(p) == [r |-> "p", v |-> H(p)]
Bad == [r |-> "err"]
Dec(cw, er, e) == [op |-> "dec", a |-> H(cw), er |-> er, exp |-> e]
Behaviour(q, s, c) ==
  LET p == TLCEval(AnyVec(s, IF c % 5 = 4 THEN Rn(s, 12, q.n + 1) ELSE q.n))
      cw == TLCEval(Encode(q, p))
      er == ErLists(q, s, c)
      okl == ErasureListOk(q, er)
      spare == Surv(q, er) - q.n
      sp == TLCEval(SurvPos(q, er))
      nf == IF spare <= 0 THEN 0 ELSE CASE Rn(s, 13, 3) = 0 -> 1 [] Rn(s, 13, 3) = 1 -> spare [] OTHER -> 1 + Rn(s, 14, spare)
      first == Rn(s, 15, Len(sp) + 1)
      hit == {sp[1 + ((first + i * (1 + 2 * Rn(s, 16, 3))) % Len(sp))] : i \in 0..(nf - 1)}
      alt == TLCEval([i \in 1..Len(cw) |-> IF nf > 0 /\ i \in hit THEN FAdd(cw[i], NonZeroF(s, 20000 + i)) ELSE cw[i]])
      over == TLCEval(Encode(q, p \o Zeros(q.n - Len(p)) \o <<NonZeroF(s, 17)>>))        \* one coefficient too many
      full == TLCEval(Encode(q, AnyVec(s + 3, CwLen(q))))
  IN << [op |-> "enc", a |-> H(p), exp |-> [r |-> "s", v |-> H(cw)]],
        Dec(Garbled(q, er, cw, s), er, IF okl THEN Ok_(p) ELSE Bad) >>
     \o (IF okl /\ nf > 0 /\ Cardinality(hit) >= 1 THEN << Dec(Garbled(q, er, alt, s + 1), er, Bad) >> ELSE << >>)
     \o (IF okl /\ spare > 0 THEN << Dec(Garbled(q, er, over, s + 2), er, Bad) >> ELSE << >>)
     \o (IF okl THEN LET d == TLCEval(Decode(q, er, full)) IN << Dec(Garbled(q, er, full, s + 4), er, IF d.ok THEN Ok_(d.p) ELSE Bad) >> ELSE << >>)
     \o (IF c % 4 = 0 THEN << Dec(cw, er \o <<q.bs + Rn(s, 18, 3)>>, Bad), Dec(cw, <<q.bs>>, Bad), Dec(cw, <<q.bs * 2 + CwLen(q)>>, Bad),
                              [op |-> "enc", a |-> H(p \o Zeros(q.n - Len(p)) \o <<Edge(s, 19)>>), exp |-> Bad] >> ELSE << >>)
(* reassembling received cosets: values of coset k of a bit-reversed codeword of n points in cosets of m *)
Order(s, c) ==
  LET m == 2 ^ Rn(s, 31, 4)  nk == 2 ^ Rn(s, 32, 5)  n == m * nk  have == SubSeq(Perm(s, nk), 1, 1 + Rn(s, 33, nk))
      ev == TLCEval([i \in 1..Len(have) |-> [j \in 1..m |-> Rf(s, 40000 + i * m + j)]])
      flat == TLCEval([x \in 1..n |-> LET k == (x - 1) \div m IN IF \E i \in DOMAIN have : have[i] = k THEN ev[CHOOSE i \in DOMAIN have : have[i] = k][((x - 1) % m) + 1] ELSE F0])
      one(idx) == [op |-> "order", n |-> n, m |-> m, idx |-> idx, a |-> H(FlattenSeq(ev)), exp |-> [r |-> "none"]]
  IN << [op |-> "order", n |-> n, m |-> m, idx |-> have, a |-> H(FlattenSeq(ev)),
         exp |-> [r |-> "ns", i |-> [x \in DOMAIN have |-> RevBits(have[x], Log2(nk))], v |-> H(BitRev(flat))]],
        one([have EXCEPT ![1] = nk]), one([have EXCEPT ![Len(have)] = nk + 5]),
        [op |-> "order", n |-> n, m |-> m, idx |-> << >>, a |-> "", exp |-> [r |-> "none"]] >>

Jobs == {<<r, z>> : r \in From..(From + Rounds - 1), z \in DOMAIN Params}
SeedOf(j) == j[1] * 1000 + j[2]
Init == job \in Jobs /\ step = 0 /\ log = << >>
New(q) == << [op |-> "rsnew", n |-> q.n, e |-> q.e, bs |-> q.bs, exp |-> [r |-> "n", v |-> <<CwLen(q), Capacity(q)>>]] >>
Work == step = 0 /\ step' = 1 /\ UNCHANGED job
  /\ LET q == Params[job[2]] s == SeedOf(job) * 100 IN
     log' = TLCEval(New(q) \o FlattenSeq([c \in 1..(IF CwLen(q) <= MaxCw THEN PerJob ELSE PerBig) |-> Behaviour(q, s + c, (job[1] - From) * PerJob + c - 1)]) \o Order(s, job[1]))
Finish == step = 1 /\ step' = 2 /\ UNCHANGED <<job, log>>
  /\ Emit("cases.ndjson", [kind |-> "lib", id |-> ToString(SeedOf(job)), params |-> Params[job[2]], steps |-> log])
Next == Work \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, step>>
=============================================================================
