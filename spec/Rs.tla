-------------------------------- MODULE Rs --------------------------------
(***************************************************************************)
(* Recovery: a column node holds a sequence of received (index, cell)      *)
(* pairs and asks for the whole extended blob.                             *)
(*                                                                         *)
(* A cell is [v |-> M elements, bad |-> patches] as in Das.tla; bad # <<>> *)
(* means some element is not in canonical form.                            *)
(***************************************************************************)
EXTENDS Das

Half2 == K \div 2
(* ---- the definition: all received cells lie on one polynomial of degree < N ---- *)
FullEval(p) == Cells(p)
AgreesWith(p, idx, cells) == LET e == Extend(p) IN \A i \in DOMAIN idx : CellOf(e, idx[i]) = cells[i].v

(* ---- the decoder ---- *)
(* zeroes exactly on the cosets of the missing cells, as a polynomial in Y = X^M *)
MissingVanish(have) ==
  LET miss == SelectSeq([k \in 1..K |-> k - 1], LAMBDA k : ~(k \in have))
  IN TLCEval(Vanishing(TLCEval([i \in 1..Len(miss) |-> CosetConst(miss[i])])))
ShiftC == FInt(7)
(* coefficients of the polynomial of degree < M * Cardinality(have) through the received cells (2N of them) *)
Interpolate(idx, cells) ==
  LET n2 == 2 * N
      pos == TLCEval([k \in 1..K |-> IF \E i \in DOMAIN idx : idx[i] = k - 1 THEN CHOOSE i \in DOMAIN idx : idx[i] = k - 1 ELSE 0])
      have == {k \in 0..(K-1) : pos[k + 1] # 0}
      zy == MissingVanish(have)
      zat == TLCEval([k \in 1..K |-> PEval(zy, CosetConst(k - 1))])             \* Z on the coset of cell k-1
      ez == TLCEval([i \in 1..n2 |-> LET k == (i - 1) \div M IN
              IF pos[k + 1] = 0 THEN F0 ELSE FMul(cells[pos[k + 1]].v[((i - 1) % M) + 1], zat[k + 1])])
      dz == IFFT(BitRev(ez))                                                    \* coefficients of P * Z
      sm == FPow(ShiftC, M)
      roots == Roots(K)
      inv == TLCEval([j \in 1..K |-> FInv(PEval(zy, FMul(sm, roots[j])))])      \* 1 / Z on the shifted domain: depends on the position mod K
      ev == CosetFFT(dz, n2, ShiftC)
  IN CosetIFFT(TLCEval([i \in 1..n2 |-> FMul(ev[i], inv[((i - 1) % K) + 1])]), ShiftC)

DistinctIdx(idx) == \A i, j \in DOMAIN idx : i # j => idx[i] # idx[j]
WellFormedRecovery(idx, cells) ==
  /\ Len(idx) = Len(cells)
  /\ \A i \in DOMAIN idx : IndexOk(idx[i])
  /\ DistinctIdx(idx)
  /\ Len(idx) >= Half2
  /\ \A i \in DOMAIN cells : cells[i].bad = << >>
NoPoly == << >>
(* [ok, poly] *)
RecoverResult(idx, cells) ==
  IF ~WellFormedRecovery(idx, cells) THEN [ok |-> FALSE, poly |-> NoPoly]
  ELSE LET q == TLCEval(Interpolate(idx, cells)) IN
       IF \E i \in (N + 1)..(2 * N) : q[i] # F0 THEN [ok |-> FALSE, poly |-> NoPoly]
       ELSE [ok |-> TRUE, poly |-> SubSeq(q, 1, N)]
=============================================================================
