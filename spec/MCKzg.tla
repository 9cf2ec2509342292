------------------------------- MODULE MCKzg -------------------------------
(***************************************************************************)
(* Exhaustive check over a small field: for every polynomial within the    *)
(* bound, the algorithms equal the definitions and the guarantees of the   *)
(* properties follow from the definitions.                                 *)
(***************************************************************************)
EXTENDS Fk20, FiniteSets
CONSTANTS Extra,        \* additional SRS elements beyond N
          CoefSet       \* coefficients of the polynomials explored
VARIABLES p, checked

TauSet == {t \in Fld : t # 0 /\ FPow(t, 2 * N) # 1}     \* general position
TauPick == CHOOSE t \in TauSet : TRUE
ExtXs == [i \in 1..(2 * N) |-> ExtRoots[ExtRev[i]]]

Init == p \in [1..N -> CoefSet] /\ checked = FALSE
Next == ~checked /\ checked' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, checked>>

TransformsAgree == checked =>
  /\ FFT(p, N) = NaiveDFT(p, N)
  /\ FFT(p, 2 * N) = NaiveDFT(p, 2 * N)
  /\ IFFT(FFT(p, N)) = p
  /\ \A g \in {2, 3} : CosetIFFT(CosetFFT(p, N, g), g) = p /\ CosetFFT(p, N, g) = [i \in 1..N |-> PEval(p, FMul(g, FPow(FRoot(N), i - 1)))]
DivisionAgrees == checked =>
  \A k \in 0..(K-1) : LET c == CosetConst(k) d == [i \in 1..(M+1) |-> IF i = 1 THEN FNeg(c) ELSE IF i = M + 1 THEN F1 ELSE F0]
     IN PEq(PAdd(PMul(QuoXmC(p, M, c), d), RemXmC(p, M, c)), p)
BlobRoundTrip == checked => BlobToPoly(PolyToBlob(p)) = p
Systematic == checked => SubSeq(Extend(p), 1, N) = PolyToBlob(p)
CellsAreCosetEvaluations == checked =>
  \A k \in 0..(K-1) : \A j \in 0..(M-1) :
     CellOf(Extend(p), k)[j + 1] = PEval(p, FMul(CosetShift(k), FPow(FRoot(M), RevBits(j, Log2(M)))))
InterpolantIsRemainder == checked =>
  \A k \in 0..(K-1) : PEq(CellInterpolant(CellOf(Extend(p), k), k), RemXmC(p, M, CosetConst(k)))
ProofsOpenCells == checked =>
  \A k \in 0..(K-1) : /\ Genuine(Commit(p, TauPick), k, CellOf(Extend(p), k), Proof(p, k, TauPick), TauPick)
                      /\ Proof(p, k, TauPick) = ProofViaRem(p, k, TauPick, Commit(p, TauPick))
Fk20IsDefinition == checked =>
  \A tau \in {TauPick, FNeg(TauPick)} : LET f == Fk20Proofs(p, PowersD(tau, 4 * N), 2 * N) f2 == Fk20Proofs(p, SubSeq(PowersD(tau, 4 * N), 1, N + Extra), 2 * N)
     IN \A k \in 0..(K-1) : f[k + 1] = Proof(p, k, tau) /\ f2[k + 1] = f[k + 1]
============================================================================
