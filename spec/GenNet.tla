------------------------------- MODULE GenNet -------------------------------
(***************************************************************************)
(* Histories of the network of Net.tla at the real parameters.  A universe *)
(* of messages - the cells of several blobs and forgeries made of them -   *)
(* reaches nodes in batches, some lost.  A batch that is not accepted is   *)
(* halved until the tuples at fault are alone; what is accepted is kept; a *)
(* commitment of which half of the cells is held is recovered, checked     *)
(* against the commitment, and passed on to the next node.                 *)
(***************************************************************************)
EXTENDS Rows, Rs
CONSTANTS Rounds, From, NBlobs, NForged
VARIABLES job, uni, src, held, log, step
vars == <<job, uni, src, held, log, step>>
Jobs == From..(From + Rounds - 1)
SeedOf(j) == j * 1000
TauOf(j) == Taus[1 + (j % 4)]
NNodes == 3
All == [k \in 1..K |-> k - 1]
HOrder(s, q) == LET h == TLCEval([i \in 1..Len(q) |-> <<R_(s, 700 + q[i]), q[i]>>]) o == SortSeq(h, LAMBDA x, y : x[1] < y[1]) IN TLCEval([i \in 1..Len(q) |-> o[i][2]])
Sources(j) == TLCEval([i \in 1..NBlobs |->
  LET s == SeedOf(j) + i  p == TLCEval(Member(IF i = 1 THEN "dense" ELSE Classes[1 + ((j * 3 + i * 7) % Len(Classes))], s).poly)
      pt == TLCEval(Commit(p, TauOf(j)))
  IN [poly |-> p, ext |-> TLCEval(Extend(p)), com |-> pt, proofs |-> TLCEval([k \in 1..K |-> ProofViaRem(p, k - 1, TauOf(j), pt)])]])
(* ---- the universe ---- *)
RowNo(i, k) == (i - 1) * K + k + 1
Other(i) == 1 + (i % NBlobs)
Forge(ss, s, f) ==
  LET i == 1 + Rn(s, 10 * f, NBlobs)  k == Rn(s, 10 * f + 1, K)  o == Other(i)  k2 == (k + 1 + Rn(s, 10 * f + 2, K - 1)) % K  p == 1 + Rn(s, 10 * f + 3, M)
      cell == CellOf(ss[i].ext, k)
      g == [com |-> Pt(ss[i].com), k |-> k, cell |-> CellV(cell), proof |-> Pt(ss[i].proofs[k + 1])]
      t == (s \div 1000 + f) % 16 IN
  CASE t = 0 -> [g EXCEPT !.com = Pt(ss[o].com)]
    [] t = 1 -> [g EXCEPT !.k = k2]
    [] t = 2 -> [g EXCEPT !.k = (k + K \div 2) % K]
    [] t = 3 -> [g EXCEPT !.cell = CellV(CellOf(ss[o].ext, k))]
    [] t = 4 -> [g EXCEPT !.cell = CellV([cell EXCEPT ![p] = FAdd(@, F1)])]
    [] t = 5 -> [g EXCEPT !.proof = Pt(ss[i].proofs[k2 + 1])]
    [] t = 6 -> [g EXCEPT !.proof = Pt(ss[o].proofs[k + 1])]
    [] t = 7 -> [g EXCEPT !.com = Pt(FNeg(ss[i].com))]
    [] t = 8 -> [g EXCEPT !.proof = Pt(ss[i].com)]
    [] t = 9 -> [g EXCEPT !.cell = CellV(CellOf(ss[o].ext, k)), !.proof = Pt(ss[o].proofs[k + 1])]
    [] t = 10 -> [g EXCEPT !.cell = CellV(CellOf(ss[i].ext, k2)), !.proof = Pt(ss[i].proofs[k2 + 1])]
    [] t = 11 -> [g EXCEPT !.proof = Pt(F0)]
    [] t = 12 -> [g EXCEPT !.proof = BadPt("notsub", Rn(s, 10 * f + 4, 4))]
    [] t = 13 -> [g EXCEPT !.k = K + Rn(s, 10 * f + 4, 3)]
    [] t = 14 -> [g EXCEPT !.cell = [v |-> cell, bad |-> << <<p - 1, F0, 1>> >>]]
    [] OTHER -> [g EXCEPT !.com = NearPt(ss[i].com, "torsion+", 1)]
Universe(ss, j) ==
  LET s == SeedOf(j)
      gen(n) == LET i == 1 + ((n - 1) \div K) k == (n - 1) % K IN [com |-> Pt(ss[i].com), k |-> k, cell |-> CellV(CellOf(ss[i].ext, k)), proof |-> Pt(ss[i].proofs[k + 1])]
      rows == TLCEval([n \in 1..(NBlobs * K + NForged) |-> IF n <= NBlobs * K THEN gen(n) ELSE TLCEval(Forge(ss, s, n - NBlobs * K))])
  IN Refresh([coms |-> [n \in DOMAIN rows |-> rows[n].com], idx |-> [n \in DOMAIN rows |-> rows[n].k], cells |-> [n \in DOMAIN rows |-> rows[n].cell],
              proofs |-> [n \in DOMAIN rows |-> rows[n].proof], verd |-> << >>], {}, TauOf(j))
VerdictOf(q) == IF \E i \in DOMAIN q : uni.verd[q[i]] = "bad" THEN "err" ELSE IF \E i \in DOMAIN q : uni.verd[q[i]] = "no" THEN "invalid" ELSE "ok"
Ask(q) == [op |-> "vedit", edits |-> << <<"restore">>, <<"rows", [i \in DOMAIN q |-> q[i] - 1]>> >>, exp |-> [r |-> VerdictOf(q)]]
RECURSIVE Halve(_)
Halve(q) == IF VerdictOf(q) = "ok" \/ Len(q) = 1 THEN << Ask(q) >>
            ELSE LET h == Len(q) \div 2 IN << Ask(q) >> \o Halve(SubSeq(q, 1, h)) \o Halve(SubSeq(q, h + 1, Len(q)))
(* ---- what reaches a node, in which batches ---- *)
Reach(nd, s) ==
  LET some(i) == LET q == HOrder(s + 31 * nd + i, All) IN [x \in 1..(K \div 2 + Rn(s, 40 * nd + i, 12) - 3) |-> RowNo(i, q[x])]
      q == TLCEval(FlattenSeq([i \in 1..NBlobs |-> some(i)]) \o [f \in 1..NForged |-> NBlobs * K + f])
  IN HOrder(s + 77 * nd, q)
Lengths == <<1, 7, 16, 33, 64, 40, 2, 3>>
RECURSIVE Cut_(_, _)
Cut_(q, i) == IF q = << >> THEN << >>
              ELSE LET n == Lengths[1 + (i % Len(Lengths))] m == IF n > Len(q) THEN Len(q) ELSE n IN <<SubSeq(q, 1, m)>> \o Cut_(SubSeq(q, m + 1, Len(q)), i + 1)
CommitmentNo(n) == IF \E i \in 1..NBlobs : uni.coms[n] = Pt(src[i].com) THEN CHOOSE i \in 1..NBlobs : uni.coms[n] = Pt(src[i].com) ELSE 0
EName(i) == "$e" \o ToString(i)
(* arrival order, each index once *)
HeldCells(h, i) == FoldLeft(LAMBDA acc, n : IF CommitmentNo(n) # i \/ \E x \in DOMAIN acc : acc[x] = uni.idx[n] THEN acc ELSE Append(acc, uni.idx[n]), << >>, h)
RecoverStep(ks, i) == [op |-> "recover", idx |-> [x \in DOMAIN ks |-> ToString(ks[x])], pick |-> [x \in DOMAIN ks |-> <<EName(i), ks[x]>>],
   exp |-> IF Len(ks) >= K \div 2 THEN [r |-> "ok", cells |-> EName(i), proofs |-> "$p" \o ToString(i)] ELSE [r |-> "err"]]
Blob(i) == FSeqHex(SubSeq(src[i].ext, 1, N))
(* what a recovering node does next: the blob is the first half, and has the commitment; all cells and proofs are accepted elsewhere *)
PassOn(i, s) == << [op |-> "commit", blob |-> Blob(i), exp |-> [r |-> "ok", com |-> FHex(src[i].com)]],
                   Ask(TLCEval([x \in 1..K |-> RowNo(i, HOrder(s, All)[x])])) >>
(* a node that skipped verification: one message of another kind among the genuine ones *)
Careless(ks, i, s) ==
  LET q == IF Len(ks) > K \div 2 THEN ks ELSE TLCEval(ks \o SelectSeq(All, LAMBDA k : ~(\E x \in DOMAIN ks : ks[x] = k)))
      y == CASE Rn(s, 90, 3) = 0 -> Len(q) [] Rn(s, 90, 3) = 1 -> 1 [] OTHER -> 1 + Rn(s, 91, Len(q))
      pos == Rn(s, 92, M) + 1
  IN [op |-> "recover", idx |-> [x \in DOMAIN q |-> ToString(q[x])],
      pick |-> [x \in DOMAIN q |-> IF x = y THEN <<EName(i), q[x], << <<pos - 1, FHex(FAdd(CellOf(src[i].ext, q[x])[pos], NonZeroF(s, 93)))>> >> >> ELSE <<EName(i), q[x]>>],
      exp |-> [r |-> "err"]]

Init == job \in Jobs /\ uni = EmptyBatch /\ src = << >> /\ held = [nd \in 1..NNodes |-> << >>] /\ log = << >> /\ step = 0
Publish == step = 0 /\ step' = 1 /\ UNCHANGED <<job, held>> /\ \E j \in {job} :
  /\ src' = Sources(j)
  /\ uni' = TLCEval(Universe(src', j))
  /\ log' = << [op |-> "vedit", edits |-> << <<"load", EncBatch(uni')>> >>, exp |-> [r |-> VerifyResult(uni')]] >>
             \o [i \in 1..NBlobs |-> [op |-> "compute", blob |-> FSeqHex(SubSeq(src'[i].ext, 1, N)), exp |-> [r |-> "ok", cells |-> EName(i), proofs |-> "$p" \o ToString(i)]]]
Receive == step \in 1..NNodes /\ UNCHANGED <<job, src, uni>> /\ step' = step + 1 /\ \E j \in {job}, nd \in {step} :
  LET bs == TLCEval(Cut_(Reach(nd, SeedOf(j)), j + nd))
      ok == SelectSeq(FlattenSeq(bs), LAMBDA n : uni.verd[n] = "yes")
      s == SeedOf(j) + nd
      ks == TLCEval([i \in 1..NBlobs |-> HeldCells(ok, i)])
  IN /\ held' = [held EXCEPT ![nd] = TLCEval(ok)]
     /\ log' = TLCEval(log \o FlattenSeq([b \in DOMAIN bs |-> Halve(bs[b])]) \o << Ask(ok) >>
                \o FlattenSeq([i \in 1..NBlobs |-> << Ask([x \in DOMAIN ks[i] |-> RowNo(i, ks[i][x])]), Careless(ks[i], i, s + i + 500), RecoverStep(ks[i], i) >> \o (IF Len(ks[i]) >= K \div 2 THEN PassOn(i, s + i) ELSE << >>) \o << Careless(ks[i], i, s + i) >>]))
Finish == step = NNodes + 1 /\ step' = step + 1 /\ UNCHANGED <<job, src, uni, held, log>>
  /\ Emit("cases.ndjson", [kind |-> "das", id |-> ToString(SeedOf(job)), cls |-> "net", tau |-> FHex(TauOf(job)),
       defs |-> [x \in {"e" \o ToString(i) : i \in 1..NBlobs} \cup {"p" \o ToString(i) : i \in 1..NBlobs} |->
          LET i == CHOOSE i \in 1..NBlobs : x = "e" \o ToString(i) \/ x = "p" \o ToString(i)
          IN IF x = "e" \o ToString(i) THEN FSeqHex(src[i].ext) ELSE FSeqHex(src[i].proofs)],
       steps |-> log])
Next == Publish \/ Receive \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, step>>
(* what a node keeps is the committed cell *)
HeldIsReal == \A nd \in 1..NNodes : \A x \in DOMAIN held[nd] :
   LET n == held[nd][x] i == CommitmentNo(n) IN i # 0 /\ uni.cells[n].v = CellOf(src[i].ext, uni.idx[n])
============================================================================
