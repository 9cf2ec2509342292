-------------------------------- MODULE Fk20 --------------------------------
(***************************************************************************)
(* The FK20 prover as an algorithm over the algebraic model of the group,  *)
(* structured like kzg_multi_open/src/fk20: truncated reversed SRS, its    *)
(* M-downsampled vectors, Toeplitz matrices embedded in circulant ones,    *)
(* one inverse transform for the sum, one transform for all proofs.        *)
(***************************************************************************)
EXTENDS Kzg

TakeEveryNth(s, m) ==       \* m groups; group i takes elements i, i+m, i+2m ...
  [i \in 1..m |-> [j \in 1..((Len(s) - i) \div m + 1) |-> s[i + (j - 1) * m]]]
RotateLeft1(s) == Tail(s) \o << Head(s) >>
Circulant(row, col) == col \o Reverse(RotateLeft1(row))

(* srs: the powers of tau given to the prover, at least N of them *)
SrsVectors(srs) ==
  LET used == SubSeq(srs, 1, N)                         \* only the first N powers take part
      trunc == Reverse(SubSeq(used, 1, N - M))
      vecs == TakeEveryNth(trunc, M)
  IN [i \in 1..M |-> PadTo(vecs[i], N \div M)]
HPoly(poly, srs) ==
  LET n == N \div M
      vecs == SrsVectors(srs)
      rows == TakeEveryNth(Reverse(poly), M)
      prod(i) == LET c == FFT(Circulant(rows[i], [j \in 1..n |-> IF j = 1 THEN rows[i][1] ELSE F0]), 2 * n)
                     v == FFT(vecs[i], 2 * n)
                 IN [j \in 1..(2 * n) |-> FMul(c[j], v[j])]
      total == TLCEval([j \in 1..(2 * n) |-> Sum([i \in 1..M |-> TLCEval(prod(i))[j]])])
  IN SubSeq(IFFT(total), 1, n)
Fk20Proofs(poly, srs, npoints) ==
  BitRev(FFT(HPoly(poly, srs), npoints \div M))
==============================================================================
