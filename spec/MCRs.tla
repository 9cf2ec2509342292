-------------------------------- MODULE MCRs --------------------------------
(***************************************************************************)
(* A node receives cells of a published blob, some altered in transit, in  *)
(* any order, possibly repeated, drops some, recovers.  Explored to a      *)
(* bound over a small field; in every state RecoverResult is compared with *)
(* the definition by brute force.                                          *)
(***************************************************************************)
EXTENDS Rs, FiniteSets
CONSTANTS Polys,       \* polynomials that may be published
          Deltas, MaxFaults, MaxLen, Brute
VARIABLES pub, idx, cells, faults, rec
vars == <<pub, idx, cells, faults, rec>>
AllPolys == [1..N -> Fld]
Init == pub \in Polys /\ idx = << >> /\ cells = << >> /\ faults = 0 /\ rec = FALSE
Pub(k) == CellV(CellOf(Extend(pub), k))
Receive(k) == /\ Len(idx) < MaxLen /\ ~(\E i \in DOMAIN idx : idx[i] = k)
              /\ (idx # << >> => k > Last(idx) \/ faults = 0)     \* order explored only for undisturbed histories
              /\ idx' = Append(idx, k) /\ cells' = Append(cells, Pub(k)) /\ UNCHANGED faults
Fault == faults < MaxFaults /\ faults' = faults + 1
Alter(i, p, d) == Fault /\ cells' = [cells EXCEPT ![i].v[p] = FAdd(@, d)] /\ UNCHANGED idx
Relabel(i, k) == Fault /\ idx' = [idx EXCEPT ![i] = k] /\ UNCHANGED cells
Repeat(i) == Fault /\ Len(idx) < MaxLen /\ idx' = Append(idx, idx[i]) /\ cells' = Append(cells, cells[i])
LoseCell == Fault /\ cells # << >> /\ cells' = SubSeq(cells, 1, Len(cells) - 1) /\ UNCHANGED idx
Garble(i) == Fault /\ cells' = [cells EXCEPT ![i].bad = << <<0, F0, 1>> >>] /\ UNCHANGED idx
Step == \/ \E k \in 0..(K-1) : Receive(k)
        \/ \E i \in DOMAIN cells : \/ \E p \in 1..M, d \in Deltas : Alter(i, p, d)
                                   \/ Garble(i)
        \/ \E i \in DOMAIN idx : \/ \E k \in 0..K : Relabel(i, k)
                                 \/ (i \in DOMAIN cells /\ Repeat(i))
        \/ LoseCell
(* successful recovery replaces what the node holds *)
Recover == LET r == RecoverResult(idx, cells) IN
           /\ r.ok /\ rec' = TRUE /\ UNCHANGED <<pub, faults>>
           /\ idx' = [k \in 1..K |-> k - 1] /\ cells' = [k \in 1..K |-> CellV(FullEval(r.poly)[k])]
Next == ~rec /\ ((Step /\ UNCHANGED <<pub, rec>>) \/ Recover)
Spec == Init /\ [][Next]_vars

Explains(p) == AgreesWith(p, idx, cells)
(* the candidates: every polynomial, or the textbook interpolant of the first N received values *)
Points == [i \in 1..(M * Len(idx)) |-> LET k == idx[((i - 1) \div M) + 1] j == (i - 1) % M IN
             <<FMul(CosetShift(k), FPow(FRoot(M), RevBits(j, Log2(M)))), cells[((i - 1) \div M) + 1].v[j + 1]>>]
Candidates == IF Brute THEN AllPolys
              ELSE {PadTo(Lagrange([i \in 1..N |-> Points[i][1]], [i \in 1..N |-> Points[i][2]]), N)}
(* RecoverResult is the definition: well formed, and exactly one polynomial of the bound explains the cells *)
RecoverIsDefinition ==
  LET r == RecoverResult(idx, cells) IN
  IF WellFormedRecovery(idx, cells)
  THEN LET ex == {p \in Candidates : Explains(p)} IN
       /\ Cardinality(ex) <= 1
       /\ r.ok <=> ex # {}
       /\ r.ok => r.poly \in ex
  ELSE ~r.ok
(* undisturbed histories with enough cells always recover what was published *)
RecoversPublished == (faults = 0 /\ Len(idx) >= Half2) => RecoverResult(idx, cells) = [ok |-> TRUE, poly |-> pub]
(* fewer altered cells than the redundancy are always noticed: the answer is an error or the published blob *)
NeverInvents == LET r == RecoverResult(idx, cells) IN (~rec /\ r.ok /\ Len(idx) - faults >= Half2) => r.poly = pub
(* a recovered extension recovers to itself *)
Idempotent == rec => LET r == RecoverResult(idx, cells) IN r.ok /\ \A k \in 1..K : FullEval(r.poly)[k] = cells[k].v
(* interpolation is exact also above the bound *)
InterpolantAgrees == WellFormedRecovery(idx, cells) =>
  LET q == Interpolate(idx, cells) e == BitRev(FFT(q, 2 * N)) IN
  /\ \A i \in DOMAIN idx : CellOf(e, idx[i]) = cells[i].v
  /\ \A i \in (M * Len(idx) + 1)..(2 * N) : q[i] = F0
=============================================================================
