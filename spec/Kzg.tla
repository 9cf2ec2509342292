-------------------------------- MODULE Kzg --------------------------------
(***************************************************************************)
(* EIP-7594 data-availability cryptography over Field, by definition.      *)
(*                                                                         *)
(* N  - field elements per blob (degree bound), a power of two             *)
(* M  - field elements per cell, a power of two dividing N                 *)
(* K == 2N/M - cells per extended blob                                     *)
(*                                                                         *)
(* A group element is represented by its discrete logarithm with respect   *)
(* to the generator (algebraic view), so with trusted setup secret tau     *)
(* the commitment of p is p(tau) and e([a]G1,[b]G2) is the product a*b.    *)
(***************************************************************************)
EXTENDS Poly, Emit
CONSTANTS N, M

K == (2 * N) \div M
ExtRoots == Once("ExtRoots", Roots(2 * N))
ExtRev == Once("ExtRev", RevTable(2 * N))
CellRev == Once("CellRev", RevTable(K))

(* The shift h_k of the coset of cell k: the cell is evaluations over h_k * <w_M>, in bit-reversed order. *)
CosetShift(k) == ExtRoots[CellRev[k + 1]]
CosetConst(k) == FPow(CosetShift(k), M)              \* the vanishing polynomial of the coset is X^M - CosetConst(k)

BlobToPoly(blob) == IFFT(BitRev(blob))
PolyToBlob(p) == BitRev(FFT(p, N))
Extend(p) == BitRev(FFT(p, 2 * N))                   \* extended blob: all cells concatenated
CellOf(ext, k) == SubSeq(ext, k * M + 1, (k + 1) * M)
Cells(p) == LET e == Extend(p) IN [k \in 1..K |-> CellOf(e, k - 1)]

Commit(p, tau) == PEval(p, tau)
(* Commitment of the quotient of (p - interpolant of p on coset k) by the coset's vanishing polynomial. *)
ProofPoly(p, k) == QuoXmC(p, M, CosetConst(k))
(* The same value, from the remainder instead of the quotient (equal by polynomial division; undefined if tau is in the coset). *)
ProofViaRem(p, k, tau, ptau) ==
  LET c == CosetConst(k)
  IN FMul(FSub(ptau, PEval(RemXmC(p, M, c), tau)), FInv(FSub(FPow(tau, M), c)))
Proof(p, k, tau) == PEval(ProofPoly(p, k), tau)

(* The polynomial of degree < M through the values of a cell at index k. *)
CellInterpolant(cell, k) == CosetIFFT(BitRev(cell), CosetShift(k))

(* (C, k, cell, proof) is a genuine opening: the verification equation of the definition. *)
Genuine(com, k, cell, proof, tau) ==
  FMul(proof, FSub(FPow(tau, M), CosetConst(k))) = FSub(com, PEval(CellInterpolant(cell, k), tau))
===========================================================================
