------------------------------ MODULE MultiOpen ------------------------------
(***************************************************************************)
(* Multi-point opening proofs for arbitrary parameters, by definition and  *)
(* as the FK20 algorithm.  q.n: coefficients of a polynomial, q.m: points  *)
(* per proof, q.np: points opened.  Group elements are discrete logarithms.*)
(***************************************************************************)
EXTENDS Poly

(* polynomials longer than the domain are reduced modulo X^n - 1, which keeps their values on it *)
FoldTo(p, n) == IF Len(p) <= n THEN PadTo(p, n) ELSE RemXmC(p, n, F1)
NumProofs(q) == q.np \div q.m
ShiftAt(q, k) == FPow(FRoot(q.np), RevBits(k, Log2(NumProofs(q))))
ConstAt(q, k) == FPow(ShiftAt(q, k), q.m)

(* ---- definition ---- *)
AllEvals(q, p) == BitRev(FFT(FoldTo(p, q.np), q.np))
EvalsAt(q, p, k) == SubSeq(AllEvals(q, p), k * q.m + 1, (k + 1) * q.m)
ProofAt(q, p, k, tau) == PEval(QuoXmC(p, q.m, ConstAt(q, k)), tau)
InterpolantAt(q, v, k) == CosetIFFT(BitRev(v), ShiftAt(q, k))
DataToPoly(d) == IFFT(BitRev(d))
(* how far a tuple is from being a genuine opening *)
Defect(q, com, k, v, pf, tau) == FSub(FSub(com, PEval(InterpolantAt(q, v, k), tau)), FMul(pf, FSub(FPow(tau, q.m), ConstAt(q, k))))
GenuineAt(q, com, k, v, pf, tau) == Defect(q, com, k, v, pf, tau) = F0

(* ---- the prover: FK20 over the first Max(n, m) powers of tau ---- *)
EveryNth(s, m) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..(IF Len(s) < i THEN 0 ELSE (Len(s) - i) \div m + 1) |-> s[i + (j - 1) * m]])])
Rotate(row) == Tail(row) \o << Head(row) >>
Rows_(q) == Max2(1, q.n \div q.m)                  \* length of every downsampled vector
SrsVecs(q, srs) ==
  LET used == IF q.n > q.m THEN Reverse(SubSeq(srs, 1, q.n - q.m)) ELSE << >>
      vs == EveryNth(used, q.m)
  IN TLCEval([i \in 1..q.m |-> PadTo(vs[i], Rows_(q))])
HCommitments(q, p, srs) ==
  LET r == Rows_(q)
      vs == SrsVecs(q, srs)
      rows == EveryNth(Reverse(PadTo(p, Max2(q.n, q.m))), q.m)
      prod(i) == LET row == rows[i]
                     circ == TLCEval([j \in 1..r |-> IF j = 1 THEN row[1] ELSE F0]) \o Reverse(Rotate(row))
                     c == FFT(circ, 2 * r)  v == FFT(vs[i], 2 * r)
                 IN TLCEval([j \in 1..(2 * r) |-> FMul(c[j], v[j])])
      prods == TLCEval([i \in 1..q.m |-> prod(i)])
  IN SubSeq(IFFT(TLCEval([j \in 1..(2 * r) |-> Sum([i \in 1..q.m |-> prods[i][j]])])), 1, r)
Fk20(q, p, srs) == BitRev(FFT(FoldTo(HCommitments(q, p, srs), NumProofs(q)), NumProofs(q)))

(* ---- the verifier: one equation for a weighted batch of rows [c, k, v, pf]; c indexes the commitments ---- *)
Equation(q, coms, rows, r, tau) ==
  LET w == PowersD(r, Len(rows))
      I == DOMAIN rows
      fold(f(_)) == FoldLeft(LAMBDA acc, i : FAdd(acc, FMul(w[i], f(i))), F0, TLCEval([i \in I |-> i]))
      \* the weights of equal commitments are added first
      csum == Sum([x \in DOMAIN coms |-> FMul(coms[x], FoldLeft(LAMBDA acc, i : IF rows[i].c = x THEN FAdd(acc, w[i]) ELSE acc, F0, TLCEval([i \in I |-> i])))])
      isum == FoldLeft(LAMBDA acc, i : PAdd(acc, PScale(InterpolantAt(q, rows[i].v, rows[i].k), w[i])), << >>, TLCEval([i \in I |-> i]))
      proofs == fold(LAMBDA i : rows[i].pf)
      shifted == fold(LAMBDA i : FMul(rows[i].pf, ConstAt(q, rows[i].k)))
  IN FMul(proofs, FPow(tau, q.m)) = FAdd(FSub(csum, PEval(isum, tau)), shifted)
==============================================================================
