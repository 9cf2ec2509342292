------------------------------- MODULE MCDas -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the batch state machine over a small field:   *)
(* all sequences of publisher and adversary steps up to the bound, and in  *)
(* every state the verdict compared with the random-challenge equation for *)
(* every challenge.                                                        *)
(***************************************************************************)
EXTENDS Das, FiniteSets
CONSTANTS MaxLen, MaxSteps, Deltas
VARIABLES b, steps
vars == <<b, steps>>
TauSet == {t \in Fld : t # 0 /\ FPow(t, 2 * N) # 1}
Tau == CHOOSE t \in TauSet : TRUE

(* Published polynomials: genuine openings come from real polynomials or from arbitrary algebra *)
Published == << [i \in 1..N |-> F0], [i \in 1..N |-> FInt(i)], [i \in 1..N |-> FNeg(FInt(i))], [i \in 1..N |-> IF i = N THEN F1 ELSE F0] >>
GenuineRow(q, k) == [com |-> Pt(Commit(Published[q], Tau)), cell |-> CellV(CellOf(Extend(Published[q]), k)), proof |-> Pt(Proof(Published[q], k, Tau))]

Init == b = EmptyBatch /\ steps = 0
Publish(q, k) == Len(b.idx) < MaxLen /\ LET g == GenuineRow(q, k) IN b' = Push(b, g.com, k, g.cell, g.proof, Tau)
Repeat(i) == Len(b.idx) < MaxLen /\ b' = TakeRows(b, [j \in 1..(Len(b.idx) + 1) |-> IF j <= Len(b.idx) THEN j ELSE i])
Swap(i, j) == b' = TakeRows(b, [x \in 1..Len(b.idx) |-> IF x = i THEN j ELSE IF x = j THEN i ELSE x])
AlterCom(i, d) == b' = SetCom(b, i, Pt(FAdd(b.coms[i].d, d)), Tau)
AlterProof(i, d) == b' = SetProof(b, i, Pt(FAdd(b.proofs[i].d, d)), Tau)
AlterCell(i, p, d) == b' = SetCell(b, i, CellV([b.cells[i].v EXCEPT ![p] = FAdd(@, d)]), Tau)
AlterIdx(i, k) == b' = SetIdx(b, i, k, Tau)
NegCom(i) == b' = SetCom(b, i, Pt(FNeg(b.coms[i].d)), Tau)
SwapProofs(i, j) == b' = SetProof(SetProof(b, i, b.proofs[j], Tau), j, b.proofs[i], Tau)
SwapCells(i, j) == b' = SetCell(SetCell(b, i, b.cells[j], Tau), j, b.cells[i], Tau)
SwapComs(i, j) == b' = SetCom(SetCom(b, i, b.coms[j], Tau), j, b.coms[i], Tau)
(* alterations that cancel in an unweighted sum *)
Cancel(i, j, d) == b' = SetProof(SetCom(b, i, Pt(FAdd(b.coms[i].d, d)), Tau), j,
                        Pt(FAdd(b.proofs[j].d, FMul(d, FInv(FSub(FPow(Tau, M), CosetConst(b.idx[j])))))), Tau)
Malform(i) == \/ b' = SetCom(b, i, BadPt("zeros", 0), Tau) \/ b' = SetProof(b, i, BadPt("zeros", 0), Tau)
              \/ b' = SetCell(b, i, [b.cells[i] EXCEPT !.bad = << <<0, F0, 1>> >>], Tau) \/ b' = SetIdx(b, i, K, Tau)
One(i) ==
  \/ Repeat(i)
  \/ NegCom(i)
  \/ Malform(i)
  \/ \E d \in Deltas : AlterCom(i, d) \/ AlterProof(i, d) \/ (\E p \in 1..M : AlterCell(i, p, d))
  \/ \E k \in 0..(K-1) : AlterIdx(i, k)
Two(i, j) ==
  \/ Swap(i, j) \/ SwapProofs(i, j) \/ SwapCells(i, j) \/ SwapComs(i, j)
  \/ \E e \in Deltas : Cancel(i, j, e)
Wf(i) == b.verd[i] # "bad"
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E q \in DOMAIN Published, k \in 0..(K-1) : Publish(q, k)
           \/ \E i \in DOMAIN b.idx : Wf(i) /\ One(i)
           \/ \E i, j \in DOMAIN b.idx : i < j /\ Wf(i) /\ Wf(j) /\ Two(i, j)
Spec == Init /\ [][Next]_vars
View == b

TypeOK == SameLengths(b) /\ Len(b.verd) = Len(b.idx)
CacheIsVerdict == \A i \in DOMAIN b.verd : b.verd[i] = Verd(b, i, Tau)
Bad == {r \in Fld : BatchEquation(b, r, Tau)}
(* C04: every challenge accepts a batch of genuine openings *)
Complete == VerifyResult(b) = "ok" => Bad = Fld
(* C05: at most Len-1 challenges accept any other batch; in particular a false opening alone is never accepted *)
Sound == VerifyResult(b) = "invalid" => Cardinality(Bad) <= Len(b.idx) - 1
(* the verdict does not depend on the order or repetition of tuples *)
OrderFree == (SameLengths(b) /\ b.idx # << >>) =>
   VerifyResult(TakeRows(b, Reverse([i \in 1..Len(b.idx) |-> i]))) = VerifyResult(b)
(* a tuple is genuine iff its proof is the one the commitment, index and cell determine *)
ProofUnique == \A i \in DOMAIN b.verd : b.verd[i] # "bad" =>
   ((b.verd[i] = "yes") <=> (b.proofs[i].d = MakeProof(b.coms[i].d, b.idx[i], b.cells[i].v, Tau)))
============================================================================
