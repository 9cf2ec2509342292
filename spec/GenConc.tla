------------------------------- MODULE GenConc -------------------------------
(***************************************************************************)
(* Histories of calls on shared contexts at the real parameters.  A job is *)
(* a pool of calls that are close to each other (the same operation on     *)
(* arguments agreeing in part: one field element of a blob changed, the    *)
(* same indices with other cells, the same rows with other proofs, failing *)
(* variants of each), two trusted setups, and a program per thread.  The   *)
(* expected result of every call is a function of the setup of its context *)
(* and of its argument alone (Value of Conc.tla).                          *)
(*                                                                         *)
(* Plan "pairs": one thread; every ordered pair of (setup, call) of one    *)
(* operation occurs in succession (a cyclic de Bruijn sequence).           *)
(* Plan "walk":  several threads; calls on slots shared by all of them and *)
(* on slots a thread makes and drops as it goes.                           *)
(* Plan "long":  one thread, many cheap calls.                             *)
(* Plan "near":  one thread, recoveries whose missing cells differ little   *)
(*               from one to the next (same number, extremes, sum ...).    *)
(***************************************************************************)
EXTENDS Rows
CONSTANTS Rounds, From, Plans, Threads, Length, Proven     \* Proven: how many blobs have expected proofs (1..3)
VARIABLES job, pool, prog, step
vars == <<job, pool, prog, step>>

Jobs == {<<r, p>> : r \in From..(From + Rounds - 1), p \in DOMAIN Plans}
SeedOf(j) == j[1] * 10000 + j[2] * 100
Plan(j) == Plans[j[2]]
TT(j) == <<Taus[1 + (j[1] % 4)], Taus[1 + ((j[1] + 1 + (j[1] % 2)) % 4)]>>
All == [k \in 1..K |-> k - 1]

(* ---- the pool ---- *)
Polys(s) ==
  LET a == TLCEval(Member(Classes[1 + Rn(s, 1, Len(Classes))], s).poly)
      ab == TLCEval(PolyToBlob(a))
      pos == CASE Rn(s, 2, 4) = 0 -> 1 [] Rn(s, 2, 4) = 1 -> N [] OTHER -> 1 + Rn(s, 3, N)
      b == TLCEval(BlobToPoly([ab EXCEPT ![pos] = FAdd(@, NonZeroF(s, 4))]))
      c == IF Rn(s, 12, 2) = 0 THEN TLCEval(Member("dense", s + 1).poly)      \* another one, or two elements exchanged
           ELSE LET x == 2 + Rn(s, 13, N - 2) y == 2 + Rn(s, 14, N - 2) IN TLCEval(BlobToPoly([ab EXCEPT ![x] = ab[y], ![y] = IF ab[x] = ab[y] THEN FAdd(ab[x], F1) ELSE ab[x]]))
  IN <<a, b, c>>
Src(p) == [poly |-> p, ext |-> TLCEval(Extend(p))]
ProofsAt(src, tau) == LET pt == TLCEval(Commit(src.poly, tau)) IN TLCEval([k \in 1..K |-> ProofViaRem(src.poly, k - 1, tau, pt)])
EName(i) == "$e" \o ToString(i)
PName(i, t) == "$p" \o ToString(i) \o ToString(t)
BlobHex(src) == FSeqHex(SubSeq(src.ext, 1, N))
Err == [r |-> "err"]
CommitEntries(ss, tt, s) ==
  [i \in 1..3 |-> [op |-> "commit", blob |-> BlobHex(ss[i]), exp |-> [t \in 1..2 |-> [r |-> "ok", com |-> FHex(Commit(ss[i].poly, tt[t]))]]]]
  \o << [op |-> "commit", blob |-> [base |-> BlobHex(ss[1]), patch |-> << <<Rn(s, 5, N), FHexAlias(F1, 1)>> >>], exp |-> <<Err, Err>>] >>
ComputeEntries(ss, tt, s) ==
  [i \in 1..Proven |-> [op |-> "compute", blob |-> BlobHex(ss[i]), exp |-> [t \in 1..2 |-> [r |-> "ok", cells |-> EName(i), proofs |-> PName(i, t)]]]]
  \o << [op |-> "compute", blob |-> [base |-> BlobHex(ss[1]), patch |-> << <<N - 1, FHexAlias(F1, 2)>> >>], exp |-> <<Err, Err>>] >>
HOrder(s, q) == LET h == TLCEval([i \in 1..Len(q) |-> <<R_(s, 700 + q[i]), q[i]>>]) o == SortSeq(h, LAMBDA x, y : x[1] < y[1]) IN TLCEval([i \in 1..Len(q) |-> o[i][2]])
Rec(idx, src, patch, exp) == [op |-> "recover", idx |-> [i \in DOMAIN idx |-> ToString(idx[i])],
   pick |-> [i \in DOMAIN idx |-> IF i = 1 /\ patch # << >> THEN <<EName(src), idx[i], patch>> ELSE <<EName(src), idx[i]>>], exp |-> exp]
RecoverEntries(ss, s) ==
  LET sa == TLCEval(SubSeq(HOrder(s, All), 1, K \div 2 + Rn(s, 6, 20)))
      qa == TLCEval(SortSeq(sa, LAMBDA x, y : x < y))
      qb == TLCEval(SubSeq(HOrder(s + 3, All), 1, K \div 2 + 1))
      ok(i) == [t \in 1..2 |-> [r |-> "ok", cells |-> EName(i), proofs |-> PName(i, t)]]
      tam == TLCEval(SubSeq(qa, 1, Len(qa)) \o SelectSeq(All, LAMBDA k : ~(\E x \in DOMAIN qa : qa[x] = k) /\ k < K - 2))
  IN << Rec(qa, 1, << >>, ok(1)), Rec(qa, IF Proven >= 2 THEN 2 ELSE 1, << >>, ok(IF Proven >= 2 THEN 2 ELSE 1)), Rec(qb, 1, << >>, ok(1)), Rec(sa, 1, << >>, ok(1)),
        Rec(tam, 1, << <<Rn(s, 7, M), FHex(NonZeroF(s, 8))>> >>, <<Err, Err>>),
        Rec(SubSeq(qa, 1, K \div 2 - 1), 1, << >>, <<Err, Err>>) >>
(* ---- receptions that differ little; missing cells are named by their place in the domain ---- *)
Asc(S) == SortSeq(SetToSeq(S), LAMBDA x, y : x < y)
OneOf(S, s, i) == Asc(S)[1 + Rn(s, i, Cardinality(S))]
Exchange(D, s, i) ==      \* one missing cell other than the extreme ones becomes another
  LET q == Asc(D) inner == D \ {q[1], q[Len(q)]} free == (q[1]..q[Len(q)]) \ D IN
  IF inner = {} \/ free = {} THEN {(d + 1) % K : d \in D} ELSE (D \ {OneOf(inner, s, i)}) \cup {OneOf(free, s, i + 1)}
Mirror(D) == {RevBits(d, Log2(K)) : d \in D}
NextMissing(D, s, i) ==
  LET x == OneOf(D, s, 10 * i)  y == OneOf(D, s, 10 * i + 1)  b == 10 * i + 2 IN
  CASE i % 8 = 0 -> Exchange(D, s, b)
    [] i % 8 = 1 -> Mirror(Exchange(Mirror(D), s, b))
    [] i % 8 = 2 -> LET up == {d \in D : d + 1 < K /\ d + 1 \notin D} IN        \* same number and same sum
         IF \E u, v \in up : v > u + 2 /\ v + 1 \notin D /\ u + 1 # v /\ v - 1 \notin D
         THEN LET z == CHOOSE z \in up \X up : z[2] > z[1] + 2 /\ (z[2] - 1) \notin D IN (D \ {z[1], z[2]}) \cup {z[1] + 1, z[2] - 1}
         ELSE Exchange(D, s, b)
    [] i % 8 = 3 -> IF ((x + K \div 2) % K) \in D THEN Exchange(D, s, b) ELSE (D \ {x}) \cup {(x + K \div 2) % K}
    [] i % 8 = 4 -> LET q == SubSeq(HOrder(s + i, All), 1, Cardinality(D)) IN {q[z] : z \in DOMAIN q}
    [] i % 8 = 5 -> IF Cardinality(D) < K \div 2 THEN D \cup {OneOf((0..(K - 1)) \ D, s, b)} ELSE D \ {x}
    [] i % 8 = 6 -> {(d + 1) % K : d \in D}
    [] OTHER     -> Exchange(D, s, b)
NearLen == 40
NearSets(s) == FoldLeft(LAMBDA acc, i : Append(acc, TLCEval(NextMissing(acc[Len(acc)], s, i))),
                        << LET q == SubSeq(HOrder(s + 9, All), 1, <<4, 30, 62>>[1 + Rn(s, 15, 3)]) IN {q[z] : z \in DOMAIN q} >>, [i \in 1..(NearLen - 1) |-> i])
NearEntries(s) ==
  LET ds == NearSets(s) IN
  [i \in 1..NearLen |->
     LET src == IF i % 3 = 0 /\ Proven >= 2 THEN 2 ELSE 1 IN
     Rec(SelectSeq(All, LAMBDA k : RevBits(k, Log2(K)) \notin ds[i]), src, << >>, [t \in 1..2 |-> [r |-> "ok", cells |-> EName(src), proofs |-> PName(src, t)]])]
(* the tampered reception is inconsistent: more than half of the cells, one of them changed *)
Batch(rows) == [coms |-> [i \in DOMAIN rows |-> Pt(rows[i].com)], idx |-> [i \in DOMAIN rows |-> rows[i].k], cells |-> [i \in DOMAIN rows |-> CellV(rows[i].cell)],
                proofs |-> [i \in DOMAIN rows |-> Pt(rows[i].proof)], verd |-> << >>]
Ver(b, tt) ==
  LET e == EncBatch(b)
  IN [op |-> "verify", coms |-> e.coms, idx |-> e.idx, cells |-> e.cells, proofs |-> e.proofs,
      exp |-> [t \in 1..2 |-> [r |-> VerifyResult(Refresh([b EXCEPT !.verd = << >>], {}, tt[t]))]]]
Opening(src, k, tau, pr) == [com |-> Commit(src.poly, tau), k |-> k, cell |-> CellOf(src.ext, k), proof |-> pr[k + 1]]
VerifyEntries(ss, pr, tt, s) ==
  LET n == <<1, 2, 3, 5, 8, 66>>[1 + Rn(s, 9, 6)]
      ks == TLCEval([i \in 1..n |-> Rn(s, 60 + i, K)])
      row(i, b, t) == Opening(ss[b], ks[i], tt[t], pr[b][t])
      g == TLCEval([i \in 1..n |-> TLCEval(row(i, 1, 1))])
      g2 == TLCEval([i \in 1..n |-> TLCEval(row(i, 1, 2))])
      h == TLCEval([i \in 1..n |-> TLCEval(row(i, IF Proven >= 2 THEN 2 ELSE 1, 1))])
      p == 1 + Rn(s, 10, n)
      base == TLCEval(Batch(g))
      rev == [i \in 1..n |-> g[n + 1 - i]]
  IN << Ver(base, tt), Ver(Batch(g2), tt), Ver(Batch(h), tt),
        Ver([base EXCEPT !.proofs = Batch(h).proofs, !.proofs[p] = Pt(FAdd(g[p].proof, F1))], tt),
        Ver([base EXCEPT !.cells[p].v[1 + Rn(s, 11, M)] = FAdd(@, F1)], tt),
        Ver([base EXCEPT !.idx[p] = (@ + 1) % K], tt),
        Ver([base EXCEPT !.coms[p] = Pt(FNeg(FAdd(g[p].com, F1)))], tt),
        Ver(Batch(rev \o <<g[p]>>), tt),
        Ver([base EXCEPT !.proofs[p] = BadPt("notsub", 1)], tt),
        Ver([base EXCEPT !.idx[p] = K], tt),
        Ver([base EXCEPT !.proofs = SubSeq(@, 1, n - 1)], tt),
        Ver(EmptyBatch, tt) >>
Pool(j) ==
  LET s == SeedOf(j)  tt == TT(j)
      ps == Polys(s)
      ss == TLCEval([i \in 1..3 |-> Src(ps[i])])
      pr == TLCEval([i \in 1..Proven |-> TLCEval([t \in 1..2 |-> ProofsAt(ss[i], tt[t])])])
  IN [entries |-> TLCEval(CommitEntries(ss, tt, s) \o ComputeEntries(ss, tt, s) \o RecoverEntries(ss, s) \o VerifyEntries(ss, pr, tt, s) \o (IF Plan(j) = "near" THEN NearEntries(s) ELSE << >>)),
      groups |-> <<4, Proven + 1, 6, 12>>,
      defs |-> [x \in {<<"e", i, 0>> : i \in 1..3} \cup {<<"p", i, t>> : i \in 1..Proven, t \in 1..2} |->
                  IF x[1] = "e" THEN FSeqHex(ss[x[2]].ext) ELSE FSeqHex(pr[x[2]][x[3]])]]
DefName(x) == IF x[1] = "e" THEN "e" \o ToString(x[2]) ELSE "p" \o ToString(x[2]) \o ToString(x[3])

(* ---- programs: items <<"new", slot, setup, configuration>>, <<"call", slot, entry>>, <<"drop", slot>> ---- *)
Cfgs == << "1/0", "2/0", "8/0", "0/0", "3/6" >>
NSh == 4                             \* shared slots 1..NSh: two per setup, made before the threads start
SharedSetup(sl) == 1 + (sl % 2)
GroupStart(pl, g) == CASE g = 1 -> 0 [] g = 2 -> pl.groups[1] [] g = 3 -> pl.groups[1] + pl.groups[2] [] g = 4 -> pl.groups[1] + pl.groups[2] + pl.groups[3]
RECURSIVE PairSeq(_, _)
PairSeq(a, n) == IF a = n THEN <<a>> ELSE <<a>> \o FoldLeft(LAMBDA acc, b : acc \o <<a, b>>, << >>, [b \in 1..(n - a) |-> a + b]) \o PairSeq(a + 1, n)
PairsOf(pl, g, slots) ==
  LET n == pl.groups[g] * Len(slots) st == GroupStart(pl, g) q == TLCEval(PairSeq(1, n) \o <<1>>)
  IN [i \in DOMAIN q |-> <<"call", slots[1 + ((q[i] - 1) % Len(slots))], st + 1 + ((q[i] - 1) \div Len(slots))>>]
AnyEntry(pl, s, x) ==
  LET g == CASE Rn(s, x, 8) < 1 -> 1 [] Rn(s, x, 8) < 3 -> 2 [] Rn(s, x, 8) < 5 -> 3 [] OTHER -> 4
  IN GroupStart(pl, g) + 1 + Rn(s, x + 1, pl.groups[g])
Walk(pl, s, th) ==
  LET b == th * 100000
      item(i) == <<"call", 1 + Rn(s, b + 10 * i, NSh), AnyEntry(pl, s, b + 10 * i + 1)>>
      own == 100 * th
      life(i) == LET st == 1 + Rn(s, b + 10 * i + 5, 2) IN
         << <<"new", own + i, st, Cfgs[1 + Rn(s, b + 10 * i + 6, Len(Cfgs))]>>, <<"call", own + i, AnyEntry(pl, s, b + 10 * i + 7)>>, item(i), <<"call", own + i, AnyEntry(pl, s, b + 10 * i + 3)>>, <<"drop", own + i>> >>
  IN TLCEval(FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 + (th % Length) \/ Rn(s, b + 10 * i + 9, 12) = 0 THEN life(i) ELSE <<item(i)>>), << >>, [i \in 1..Length |-> i]))
Cheap(pl, s, i) == LET g == IF Rn(s, 10 * i, 16) = 0 THEN 1 ELSE 4 IN <<"call", 1 + Rn(s, 10 * i + 2, 2), GroupStart(pl, g) + 1 + Rn(s, 10 * i + 1, pl.groups[g])>>
Programs(j, pl) ==
  LET s == SeedOf(j) IN
  CASE Plan(j) = "pairs" -> << TLCEval(PairsOf(pl, 1, <<1, 2>>) \o PairsOf(pl, 2, <<1, 2>>) \o PairsOf(pl, 3, <<1, 2>>) \o PairsOf(pl, 4, <<1, 2>>)) >>
    [] Plan(j) = "near"  -> LET b == GroupStart(pl, 4) + pl.groups[4] IN
                            << TLCEval([i \in 1..NearLen |-> <<"call", 1, b + i>>] \o [i \in 1..(NearLen \div 2) |-> <<"call", 1 + (i % 2), b + i>>]) >>
    [] Plan(j) = "long"  -> << TLCEval([i \in 1..(800) |-> Cheap(pl, s, i)]) >>
    [] OTHER             -> TLCEval([th \in 1..Threads |-> Walk(pl, s, th)])

Init == job \in Jobs /\ pool = << >> /\ prog = << >> /\ step = 0
MakePool == step = 0 /\ step' = 1 /\ UNCHANGED <<job, prog>> /\ \E j \in {job} : pool' = TLCEval(Pool(j))
MakePrograms == step = 1 /\ step' = 2 /\ UNCHANGED <<job, pool>> /\ \E j \in {job}, pl \in {[groups |-> pool.groups]} : prog' = Programs(j, pl)
Finish == step = 2 /\ step' = 3 /\ UNCHANGED <<job, pool, prog>>
  /\ Emit("cases.ndjson", [kind |-> "conc", id |-> ToString(SeedOf(job)), plan |-> Plan(job), taus |-> <<FHex(TT(job)[1]), FHex(TT(job)[2])>>,
       defs |-> [nm \in {DefName(x) : x \in DOMAIN pool.defs} |-> pool.defs[CHOOSE x \in DOMAIN pool.defs : DefName(x) = nm]],
       shared |-> [sl \in 1..NSh |-> <<SharedSetup(sl), Cfgs[1 + Rn(SeedOf(job), 20 + sl, Len(Cfgs))]>>],
       pool |-> pool.entries, progs |-> prog])
Next == MakePool \/ MakePrograms \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, step>>

(* every call names a slot that is live for its thread *)
WellFormed == step = 2 => \A th \in DOMAIN prog : \A i \in DOMAIN prog[th] :
   prog[th][i][1] = "call" => prog[th][i][2] \in 1..NSh \/
      (\E x \in 1..(i - 1) : prog[th][x][1] = "new" /\ prog[th][x][2] = prog[th][i][2] /\ \A y \in x..i : ~(prog[th][y][1] = "drop" /\ prog[th][y][2] = prog[th][i][2]))
(* the tampered reception cannot be recovered; the genuine one can *)
PoolIsRight == step = 1 =>
  LET st == pool.groups[1] + pool.groups[2] IN
  /\ \A t \in 1..2 : pool.entries[st + 1].exp[t].r = "ok"
  /\ pool.entries[st + pool.groups[3] + 1].exp[1].r = "ok"
==============================================================================
