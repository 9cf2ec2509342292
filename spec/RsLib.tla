------------------------------- MODULE RsLib -------------------------------
(***************************************************************************)
(* Reed-Solomon coding for arbitrary parameters: polynomials of n          *)
(* coefficients, codewords of n * e evaluations on the roots of unity,     *)
(* erasures by block index (position modulo the block size bs).            *)
(***************************************************************************)
EXTENDS Poly

CwLen(q) == q.n * q.e
NumBlocks(q) == CwLen(q) \div q.bs
Capacity(q) == (CwLen(q) - q.n) \div NumBlocks(q)
ErSet(er) == {er[x] : x \in DOMAIN er}
ErasedIn(q, es, i) == (i % q.bs) \in es                              \* i from 0
ErasedPos(q, er, i) == ErasedIn(q, ErSet(er), i)
Encode(q, p) == FFT(p, CwLen(q))
ErasureListOk(q, er) == Len(er) <= Capacity(q) /\ \A x \in DOMAIN er : er[x] < q.bs

(* ---- the definition ---- *)
Fits(q, er, cw, p) == LET c == Encode(q, p) IN \A i \in 0..(CwLen(q) - 1) : ErasedPos(q, er, i) \/ c[i + 1] = cw[i + 1]
(* ---- the decoder ---- *)
Shift == FInt(7)
BlockVanish(q, er) ==
  LET rts == Roots(q.bs)
      zy == Vanishing(TLCEval([x \in DOMAIN er |-> rts[er[x] + 1]]))
  IN TLCEval([i \in 1..CwLen(q) |-> IF (i - 1) % NumBlocks(q) = 0 THEN Coef(zy, (i - 1) \div NumBlocks(q)) ELSE F0])
DecodeFull(q, er, cw) ==
  LET z == BlockVanish(q, er)  L == CwLen(q)
      zat == FFT(z, L)
      dz == IFFT(TLCEval([i \in 1..L |-> FMul(zat[i], cw[i])]))
      a == CosetFFT(dz, L, Shift)  b == CosetFFT(z, L, Shift)
  IN CosetIFFT(TLCEval([i \in 1..L |-> FMul(a[i], FInv(b[i]))]), Shift)
Decode(q, er, cw) ==
  IF ~ErasureListOk(q, er) THEN [ok |-> FALSE, p |-> << >>]
  ELSE LET f == TLCEval(DecodeFull(q, er, cw)) IN
       IF \E i \in (q.n + 1)..CwLen(q) : f[i] # F0 THEN [ok |-> FALSE, p |-> << >>] ELSE [ok |-> TRUE, p |-> SubSeq(f, 1, q.n)]
=============================================================================
