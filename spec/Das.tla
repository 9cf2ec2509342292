-------------------------------- MODULE Das --------------------------------
(***************************************************************************)
(* Data-availability sampling as a state machine.                          *)
(*                                                                         *)
(* A verifier holds a batch: four lists (commitments, cell indices, cells, *)
(* proofs) that an untrusted network fills.  Publishers add genuine        *)
(* openings; an adversary replaces, swaps, repeats or malforms any part.   *)
(* At any moment the batch may be verified: VerifyResult is the verdict    *)
(* the properties C04, C05 and C06 demand.  BatchEquation is the design    *)
(* that decides it with one random challenge.                              *)
(*                                                                         *)
(* An encoding of a group element is [d |-> its discrete logarithm,        *)
(* bad |-> ""] or malformed (bad names the kind).  A cell is its M values  *)
(* v and a sequence bad of <<position, a, j>>: the scalar at position is   *)
(* encoded as the integer a + j * modulus, j > 0.                          *)
(***************************************************************************)
EXTENDS Kzg, Emit

Pt(d) == [d |-> d, bad |-> ""]
BadPt(c, n) == [d |-> F0, bad |-> c \o ":" \o ToString(n)]
NearPt(d, c, n) == [d |-> d, bad |-> c \o ":" \o ToString(n)]    \* [d]G1 displaced by a point outside the subgroup
CellV(v) == [v |-> v, bad |-> << >>]

(* What the network can put into an index field; negative numbers name indices beyond 32 bits. *)
HugeIndex == << "18446744073709551615", "9223372036854775808", "4294967296", "4294967297", "18446744073709551488", "9223372036854775807", "4294967423" >>
IndexOk(k) == 0 <= k /\ k < K
EncIdx(k) == IF k < 0 THEN HugeIndex[0 - k] ELSE ToString(k)

EmptyBatch == [coms |-> << >>, idx |-> << >>, cells |-> << >>, proofs |-> << >>, verd |-> << >>]
Len4(b) == <<Len(b.coms), Len(b.idx), Len(b.cells), Len(b.proofs)>>
MinLen(b) == LET l == Len4(b) m(x, y) == IF x < y THEN x ELSE y IN m(m(l[1], l[2]), m(l[3], l[4]))

(* Verdict on one tuple: "bad" malformed, "yes" genuine, "no" false opening *)
TupleVerdict(com, k, cell, proof, tau) ==
  IF com.bad # "" \/ proof.bad # "" \/ cell.bad # << >> \/ ~IndexOk(k) THEN "bad"
  ELSE IF Genuine(com.d, k, cell.v, proof.d, tau) THEN "yes" ELSE "no"
Verd(b, i, tau) == TupleVerdict(b.coms[i], b.idx[i], b.cells[i], b.proofs[i], tau)
(* verd caches the verdict of every complete tuple *)
Refresh(b, rows, tau) ==
  [b EXCEPT !.verd = TLCEval([i \in 1..MinLen(b) |-> IF i \in rows \/ i > Len(b.verd) THEN Verd(b, i, tau) ELSE b.verd[i]])]

SameLengths(b) == \A x \in 1..4 : Len4(b)[x] = Len4(b)[1]
AnyMalformed(b) ==
  \/ \E i \in DOMAIN b.coms : b.coms[i].bad # ""
  \/ \E i \in DOMAIN b.proofs : b.proofs[i].bad # ""
  \/ \E i \in DOMAIN b.cells : b.cells[i].bad # << >>
VerifyResult(b) ==
  IF ~SameLengths(b) THEN "err"
  ELSE IF \E i \in DOMAIN b.idx : ~IndexOk(b.idx[i]) THEN "err"
  ELSE IF AnyMalformed(b) THEN "err"
  ELSE IF \E i \in DOMAIN b.verd : b.verd[i] # "yes" THEN "invalid"
  ELSE "ok"                                             \* in particular for the empty batch

(***************************************************************************)
(* The design: random linear combination with powers of a challenge r,     *)
(* commitments deduplicated, one combined interpolation polynomial, one    *)
(* pairing equation.  Only defined on well-formed batches.                 *)
(***************************************************************************)
Dedup(s) == FoldLeft(LAMBDA acc, x : IF \E i \in DOMAIN acc : acc[i] = x THEN acc ELSE Append(acc, x), << >>, s)
BatchEquation(b, r, tau) ==
  LET n == Len(b.idx)
      rp == Powers(r, n)
      uniq == Dedup([i \in 1..n |-> b.coms[i].d])
      weight(u) == Sum([i \in 1..n |-> IF b.coms[i].d = uniq[u] THEN rp[i] ELSE F0])
      sumProofs == Sum([i \in 1..n |-> FMul(rp[i], b.proofs[i].d)])
      shifted == Sum([i \in 1..n |-> FMul(FMul(rp[i], CosetConst(b.idx[i])), b.proofs[i].d)])
      sumComs == Sum([u \in DOMAIN uniq |-> FMul(weight(u), uniq[u])])
      interp == FoldLeft(LAMBDA acc, i : PAdd(acc, PScale(CellInterpolant(b.cells[i].v, b.idx[i]), rp[i])), << >>, [i \in 1..n |-> i])
  IN FMul(sumProofs, FPow(tau, M)) = FAdd(FSub(sumComs, PEval(interp, tau)), shifted)

(***************************************************************************)
(* Edits of a batch.  Each returns the new batch; SetX touch one tuple.    *)
(***************************************************************************)
SetCom(b, i, x, tau) == Refresh([b EXCEPT !.coms[i] = x], {i}, tau)
SetIdx(b, i, x, tau) == Refresh([b EXCEPT !.idx[i] = x], {i}, tau)
SetCell(b, i, x, tau) == Refresh([b EXCEPT !.cells[i] = x], {i}, tau)
SetProof(b, i, x, tau) == Refresh([b EXCEPT !.proofs[i] = x], {i}, tau)
Push(b, com, k, cell, proof, tau) ==
  LET nb == [b EXCEPT !.coms = Append(@, com), !.idx = Append(@, k), !.cells = Append(@, cell), !.proofs = Append(@, proof)]
  IN Refresh(nb, {}, tau)
(* take rows p[1], p[2], ... of a batch with equal lengths (permute, repeat, drop) *)
TakeRows(b, p) ==
  LET q == TLCEval(p)
      T(l) == TLCEval([i \in 1..Len(q) |-> l[q[i]]])
  IN [coms |-> T(b.coms), idx |-> T(b.idx), cells |-> T(b.cells), proofs |-> T(b.proofs), verd |-> T(b.verd)]

(* The proof that makes an arbitrary (commitment, index, cell) a genuine opening: every commitment has one, *)
(* because every group element is the commitment of some polynomial agreeing with the cell.                  *)
MakeProof(com, k, cell, tau) ==
  FMul(FSub(com, PEval(CellInterpolant(cell, k), tau)), FInv(FSub(FPow(tau, M), CosetConst(k))))
MakeCom(k, cell, proof, tau) ==
  FAdd(PEval(CellInterpolant(cell, k), tau), FMul(proof, FSub(FPow(tau, M), CosetConst(k))))
(* By how much a tuple misses the equation; zero iff genuine *)
Defect(com, k, cell, proof, tau) == FSub(com, MakeCom(k, cell, proof, tau))
==============================================================================
