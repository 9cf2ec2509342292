-------------------------------- MODULE GenRs --------------------------------
(***************************************************************************)
(* Behaviours of recovering nodes at the real parameters: a publisher's    *)
(* blob, then attempts to recover from what arrived.  The result of every  *)
(* attempt is RecoverResult of the cells as received.                      *)
(***************************************************************************)
EXTENDS Rs, Blobs
CONSTANTS Mode,         \* "recover" | "reject"
          Rounds, PerBlob, From, WithCompute
VARIABLES job, src, step, log
vars == <<job, src, step, log>>

(* ---- which cells survive ---- *)
All == [k \in 1..K |-> k - 1]
HashOrder(s, q) == LET h == TLCEval([i \in 1..Len(q) |-> <<R_(s, 700 + q[i]), q[i]>>])
                       o == SortSeq(h, LAMBDA x, y : x[1] < y[1])
                   IN TLCEval([i \in 1..Len(q) |-> o[i][2]])
Asc(q) == SortSeq(q, LAMBDA x, y : x < y)
RandSub(s, n) == Asc(SubSeq(HashOrder(s, All), 1, n))
Bit(k, j) == (k \div (2 ^ j)) % 2
RECURSIVE PopCount(_)
PopCount(k) == IF k = 0 THEN 0 ELSE (k % 2) + PopCount(k \div 2)
Rev7(k) == CellRev[k + 1] - 1
NPat == 19
Pattern(kind, s) ==
  LET c == Rn(s, 401, 2) j == Rn(s, 402, 7) a == Rn(s, 403, K) m == Rn(s, 404, Half2) IN
  CASE kind = 0 -> SelectSeq(All, LAMBDA k : k < Half2)
    [] kind = 1 -> SelectSeq(All, LAMBDA k : k >= Half2)
    [] kind = 2 -> SelectSeq(All, LAMBDA k : k % 2 = 0)
    [] kind = 3 -> SelectSeq(All, LAMBDA k : k % 2 = 1)
    [] kind = 4 -> All
    [] kind = 5 -> SelectSeq(All, LAMBDA k : k # a)
    [] kind = 6 -> RandSub(s, Half2)
    [] kind = 7 -> RandSub(s, Half2 + 1 + m)
    [] kind = 8 -> SelectSeq(All, LAMBDA k : Bit(k, j) = c)
    [] kind = 9 -> SelectSeq(All, LAMBDA k : k % 4 \in {a % 4, (a + 1 + (m % 3)) % 4})
    [] kind = 10 -> SelectSeq(All, LAMBDA k : Rn(s, 800 + (IF k < Half2 THEN k ELSE K - 1 - k), 2) = (IF k < Half2 THEN 0 ELSE 1))
    [] kind = 11 -> SelectSeq(All, LAMBDA k : Rn(s, 800 + (k % Half2), 2) = (IF k < Half2 THEN 0 ELSE 1))
    [] kind = 12 -> SelectSeq(All, LAMBDA k : (k + K - a) % K < Half2 + (m % 3))
    [] kind = 13 -> SelectSeq(All, LAMBDA k : k >= m % 4 /\ k < K - (a % 4))
    [] kind = 14 -> SelectSeq(All, LAMBDA k : ~((k + K - a) % K < 1 + m))
    [] kind = 15 -> SelectSeq(All, LAMBDA k : PopCount(k) % 2 = c)
    [] kind = 16 -> SelectSeq(All, LAMBDA k : Rn(s, 900 + (k % 8), 8) < 6 \/ Bit(k, 6) = c)
    [] kind = 17 -> SelectSeq(All, LAMBDA k : ~(Rev7(k) % (2 ^ (1 + (j % 6))) = (a % (2 ^ (1 + (j % 6))))))     \* a coset missing, in domain order
    [] kind = 18 -> SelectSeq(All, LAMBDA k : ~((Rev7(k) + K - a) % K < 1 + m))                                   \* a run missing, in domain order
NOrd == 6
Ordered(kind, s, q) ==
  LET n == Len(q) IN
  CASE kind = 0 -> q
    [] kind = 1 -> Reverse(q)
    [] kind = 2 -> HashOrder(s, q)
    [] kind = 3 -> [i \in 1..n |-> q[1 + ((i + Rn(s, 405, n)) % n)]]
    [] kind = 4 -> SelectSeq(q, LAMBDA k : k % 2 = 1) \o SelectSeq(q, LAMBDA k : k % 2 = 0)
    [] kind = 5 -> IF n >= 2 THEN <<q[n]>> \o SubSeq(q, 2, n - 1) \o <<q[1]>> ELSE q

(* ---- what arrived: idx is a sequence of indices, items a sequence of [src, k, patch] ---- *)
(* sources: 1 the blob, 2 the blob plus v X^d with d >= N, 3 an unrelated blob, 4 the blob plus v X^d with d < N *)
Item(sc, k) == [src |-> sc, k |-> k, patch |-> << >>]
Items(sc, q) == [i \in DOMAIN q |-> Item(sc, q[i])]
Patched(it, pos, x, al) == [it EXCEPT !.patch = Append(@, <<pos, x, al>>)]
ValueOf(it, ss) ==
  LET base == CellOf(ss[it.src].ext, it.k)
      good == SelectSeq(it.patch, LAMBDA e : e[3] = 0)
  IN CellV(FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e[1]] = e[2]], base, good))
CellAsReceived(it, ss) == [ValueOf(it, ss) EXCEPT !.bad = SelectSeq(it.patch, LAMBDA e : e[3] # 0)]

RejectKinds == << "hideg66", "hideg128", "hidegedge", "hideg65", "hideg64", "lowdeg", "onecell+1", "onecellrand", "onecelllast", "manycells", "swap2", "otherblob1", "otherblobhalf", "shifted",
                  "len-1cell", "len-1idx", "len+1", "few63", "few1", "few0", "dup65", "dup64", "dupconflict", "dupall", "toomany", "idx128", "idxhuge", "idxhugedup", "noncanon", "noncanonzero",
                  "noncanonall", "lencanon", "good", "zerocell", "idxswap", "negcell", "onlycells", "onlyidx", "hideg100", "tamper65", "noncanonfew" >>
Swap2(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
Arrive(kind, s, ss) ==
  LET sub(n) == HashOrder(s + 17, SubSeq(HashOrder(s, All), 1, n))
      big == Half2 + 2 + Rn(s, 501, Half2 - 1)         \* 66 .. 128
      q == TLCEval(Ordered(Rn(s, 502, NOrd), s, Asc(sub(big))))
      n == Len(q)  i == CASE Rn(s, 503, 4) = 0 -> 1 [] Rn(s, 503, 4) = 1 -> n [] OTHER -> 1 + Rn(s, 504, n)
      j == 1 + (i % n)  p == CASE Rn(s, 505, 4) = 0 -> 1 [] Rn(s, 505, 4) = 1 -> M [] OTHER -> 1 + Rn(s, 506, M)
      its == TLCEval(Items(1, q))
      cur == CellOf(ss[1].ext, q[i])
      q64 == TLCEval(sub(Half2))
      mk(ix, im) == [idx |-> ix, items |-> im]
      oddCells(t) == TLCEval([x \in 1..n |-> IF x <= t THEN Patched(its[x], 1 + Rn(s, 600 + x, M), Rf(s, 3000 + x), 0) ELSE its[x]])
      alias(x, m) == IF FHexAlias(x, m) = "" THEN <<p, F0, m>> ELSE <<p, x, m>>
      nc(it, x, m) == [it EXCEPT !.patch = Append(@, alias(x, m))]
  IN
  CASE kind = "hideg128" -> mk(Ordered(Rn(s, 502, NOrd), s, All), Items(2, Ordered(Rn(s, 502, NOrd), s, All)))
    [] kind \in {"hideg66", "hideg65", "hideg100", "hideg64", "hidegedge"} ->
         LET m == CASE kind = "hideg66" -> 66 [] kind = "hideg65" -> 65 [] kind = "hideg100" -> 100 [] kind = "hideg64" -> 64 [] OTHER -> n
             w == TLCEval(sub(m)) IN mk(w, Items(2, w))
    [] kind = "lowdeg"      -> mk(q, Items(4, q))                                                                    \* a different but valid blob
    [] kind = "onecell+1"   -> mk(q, [its EXCEPT ![i] = Patched(@, p, FAdd(cur[p], F1), 0)])
    [] kind = "onecellrand" -> mk(q, [its EXCEPT ![i] = Patched(@, p, Rf(s, 507), 0)])
    [] kind = "onecelllast" -> mk(q, [its EXCEPT ![n] = Patched(@, M, Rf(s, 507), 0)])
    [] kind = "tamper65"    -> LET w == TLCEval(sub(Half2 + 1)) IN mk(w, [Items(1, w) EXCEPT ![1 + Rn(s, 508, Half2 + 1)] = Patched(@, p, Rf(s, 507), 0)])
    [] kind = "manycells"   -> mk(q, oddCells(1 + Rn(s, 508, n - Half2)))
    [] kind = "swap2"       -> mk(q, Swap2(its, i, j))
    [] kind = "idxswap"     -> mk(Swap2(q, i, j), its)
    [] kind = "otherblob1"  -> mk(q, [its EXCEPT ![i] = Item(3, q[i])])
    [] kind = "otherblobhalf" -> mk(q, [x \in 1..n |-> IF x % 2 = 0 THEN its[x] ELSE Item(3, q[x])])
    [] kind = "shifted"     -> mk(q, [x \in 1..n |-> Item(1, (q[x] + 1) % K)])
    [] kind = "negcell"     -> mk(q, [its EXCEPT ![i].patch = [x \in 1..M |-> <<x, FNeg(cur[x]), 0>>]])
    [] kind = "zerocell"    -> mk(q, [its EXCEPT ![i].patch = [x \in 1..M |-> <<x, F0, 0>>]])
    [] kind = "len-1cell"   -> mk(q, SubSeq(its, 1, n - 1))
    [] kind = "len-1idx"    -> mk(SubSeq(q, 1, n - 1), its)
    [] kind = "len+1"       -> mk(q, Append(its, its[i]))
    [] kind = "lencanon"    -> mk(q64, Append(Items(1, q64), Item(1, q64[1])))
    [] kind = "few63"       -> mk(Tail(q64), Items(1, Tail(q64)))
    [] kind = "few1"        -> mk(<<q[i]>>, <<its[i]>>)
    [] kind = "few0"        -> mk(<< >>, << >>)
    [] kind = "onlycells"   -> mk(<< >>, its)
    [] kind = "onlyidx"     -> mk(q, << >>)
    [] kind = "dup65"       -> mk(Append(q64, q64[1 + Rn(s, 509, Half2)]), Append(Items(1, q64), Item(1, q64[1 + Rn(s, 509, Half2)])))
    [] kind = "dup64"       -> LET w == [q64 EXCEPT ![1] = q64[2 + Rn(s, 509, Half2 - 1)]] IN mk(w, Items(1, w))
    [] kind = "dupconflict" -> mk(<<q[i]>> \o q, <<Item(3, q[i])>> \o its)
    [] kind = "dupall"      -> mk(q \o q, its \o its)
    [] kind = "toomany"     -> mk(All \o <<Rn(s, 509, K)>>, Items(1, All \o <<Rn(s, 509, K)>>))
    [] kind = "idx128"      -> mk([q EXCEPT ![i] = K + Rn(s, 509, 3)], its)
    [] kind = "idxhuge"     -> mk([q EXCEPT ![i] = 0 - (1 + Rn(s, 509, Len(HugeIndex)))], its)
    [] kind = "idxhugedup"  -> mk(q \o <<0 - (1 + Rn(s, 509, Len(HugeIndex)))>>, its \o <<its[i]>>)
    [] kind = "noncanon"    -> mk(q, [its EXCEPT ![i] = nc(@, cur[p], 1 + Rn(s, 510, 2))])
    [] kind = "noncanonzero" -> mk(q, [its EXCEPT ![i] = nc(@, F0, 1)])
    [] kind = "noncanonall" -> mk(q, [x \in 1..n |-> nc(its[x], CellOf(ss[1].ext, q[x])[p], 1)])
    [] kind = "noncanonfew" -> mk(Tail(q64), [Items(1, Tail(q64)) EXCEPT ![1] = nc(@, F1, 1)])
    [] kind = "good"        -> mk(q, its)

Jobs == {<<r, c>> : r \in From..(From + Rounds - 1), c \in 1..Len(Classes)}
SeedOf(j) == j[1] * 10000 + j[2] * 100
TauOf(j) == Taus[1 + (j[1] % 4)]
Src(p) == [poly |-> p, ext |-> TLCEval(Extend(p))]
AddTerm(p, d, v) == TLCEval([i \in 1..(2 * N) |-> IF i = d + 1 THEN FAdd(Coef(p, i - 1), v) ELSE Coef(p, i - 1)])
HighDegree(s) == LET c == Rn(s, 511, 6) IN
  CASE c = 0 -> N [] c = 1 -> 2 * N - 1 [] c = 2 -> N + M - 1 [] c = 3 -> N + M [] OTHER -> N + Rn(s, 512, N)
Sources(j) ==
  LET s == SeedOf(j) p == TLCEval(Member(Classes[j[2]], s).poly) IN
  IF Mode = "recover" THEN << Src(p) >>
  ELSE << Src(p), Src(AddTerm(p, HighDegree(s), NonZeroF(s, 513))), Src(TLCEval(PAdd(p, PScale(RandSeq(R_(s, 2), 9000, 40), F1)))),
          Src(SubSeq(AddTerm(p, Rn(s, 514, N), F1), 1, N)) >>
RefName(x) == "$e" \o ToString(x)
Proofs(p, tau) == LET pt == TLCEval(Commit(p, tau)) IN FSeqHex(TLCEval([k \in 1..K |-> ProofViaRem(p, k - 1, tau, pt)]))
EncItem(it, ss) == IF it.patch = << >> THEN <<RefName(it.src), it.k>>
   ELSE <<RefName(it.src), it.k, [i \in DOMAIN it.patch |-> <<it.patch[i][1] - 1, FHexAlias(it.patch[i][2], it.patch[i][3])>>]>>
ExpOf(r, ss, tau) ==
  IF ~r.ok THEN [r |-> "err"]
  ELSE IF r.poly = SubSeq(ss[1].poly, 1, N) THEN [r |-> "ok", cells |-> "$e1", proofs |-> "$p"]
  ELSE [r |-> "ok", cells |-> FSeqHex(Extend(r.poly)), proofs |-> Proofs(r.poly, tau)]
RStep(a, ss, tau) ==
  LET cs == TLCEval([i \in DOMAIN a.items |-> TLCEval(CellAsReceived(a.items[i], ss))])
      r == TLCEval(RecoverResult(a.idx, cs))
  IN [op |-> "recover", idx |-> [i \in DOMAIN a.idx |-> EncIdx(a.idx[i])], pick |-> [i \in DOMAIN a.items |-> EncItem(a.items[i], ss)], exp |-> ExpOf(r, ss, tau)]
Cnt(j, k) == ((j[1] - From) * Len(Classes) + j[2] - 1) * PerBlob + k
Attempt(j, k, ss) ==
  LET s == SeedOf(j) + k  c == Cnt(j, k) - 1 IN
  IF Mode = "reject" THEN Arrive(RejectKinds[1 + (c % Len(RejectKinds))], s, ss)
  ELSE IF c % 12 = 11 THEN         \* 64 arbitrary cells always determine a blob
       LET q == TLCEval(Ordered(2, s, Pattern(6, s))) IN
       [idx |-> q, items |-> TLCEval([i \in 1..Len(q) |-> IF i % 4 = c % 3 THEN [Item(1, q[i]) EXCEPT !.patch = TLCEval([x \in 1..M |-> <<x, Rf(s, 4000 + 100 * i + x), 0>>])] ELSE Item(1, (q[i] + i) % K)])]
  ELSE LET q == TLCEval(Ordered(Rn(s, 520, NOrd), s, Pattern(c % NPat, s))) IN
       IF Len(q) < Half2 THEN [idx |-> All, items |-> Items(1, All)] ELSE [idx |-> q, items |-> Items(1, q)]

Init == job \in Jobs /\ src = << >> /\ step = 0 /\ log = << >>
Publish == /\ step = 0 /\ step' = 1 /\ UNCHANGED job
           /\ src' = TLCEval(Sources(job))
           /\ log' = IF WithCompute THEN << [op |-> "compute", blob |-> FSeqHex(SubSeq(src'[1].ext, 1, N)), exp |-> [r |-> "ok", cells |-> "$e1", proofs |-> "$p"]] >> ELSE << >>
TryRecover == /\ step \in 1..PerBlob /\ step' = step + 1 /\ UNCHANGED <<job, src>>
              /\ log' = Append(log, TLCEval(RStep(TLCEval(Attempt(job, step, src)), src, TauOf(job))))
Finish == /\ step = PerBlob + 1 /\ step' = step + 1 /\ UNCHANGED <<job, src, log>>
          /\ Emit("cases.ndjson", [kind |-> "das", id |-> ToString(SeedOf(job)), cls |-> Classes[job[2]], tau |-> FHex(TauOf(job)),
                defs |-> [x \in {"p"} \cup {"e" \o ToString(i) : i \in DOMAIN src} |->
                            IF x = "p" THEN Proofs(src[1].poly, TauOf(job)) ELSE LET i == CHOOSE i \in DOMAIN src : x = "e" \o ToString(i) IN FSeqHex(src[i].ext)],
                steps |-> log])
Next == Publish \/ TryRecover \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, step>>
(* the publisher's own cells recover to the publisher's blob *)
GoodRecovers == (Mode = "recover" /\ Len(log) > 0 /\ step \in 2..PerBlob) => Last(log).exp.r = "ok"
==============================================================================
