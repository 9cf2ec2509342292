----------------------------- MODULE MCMultiOpen -----------------------------
(***************************************************************************)
(* Exhaustive over a small field: a prover is created for some parameters  *)
(* and commitment key, proves a polynomial, an adversary may alter the     *)
(* opened rows, and the verifier decides with some challenge.              *)
(***************************************************************************)
EXTENDS MultiOpen, FiniteSets
CONSTANTS MaxN, MaxM, MaxNp, CoefSet, Deltas, Extras, MaxRows, MaxEdits
VARIABLES q, p, extra, out, rows, edits, phase
vars == <<q, p, extra, out, rows, edits, phase>>

Pow2(x) == {2 ^ t : t \in {u \in 0..5 : 2 ^ u <= x}}
Params == {x \in [n : Pow2(MaxN), m : Pow2(MaxM), np : Pow2(MaxNp)] : x.np > x.m}
Tau == FInt(3)
Pols(n) == UNION {[1..l -> CoefSet] : l \in {n, n \div 2}}
Init == /\ q \in Params /\ extra \in Extras /\ p \in Pols(q.n) /\ out = << >> /\ rows = << >> /\ edits = 0 /\ phase = "new"
Prove == /\ phase = "new" /\ phase' = "proved" /\ UNCHANGED <<q, p, extra, rows, edits>>
         /\ out' = TLCEval([pf |-> Fk20(q, p, PowersD(Tau, Max2(q.n, q.m) + extra)), ev |-> AllEvals(q, p)])
Row(k) == [c |-> 1, k |-> k, v |-> SubSeq(out.ev, k * q.m + 1, (k + 1) * q.m), pf |-> out.pf[k + 1]]
Submit == /\ phase = "proved" /\ Len(rows) < MaxRows
          /\ \E k \in 0..(NumProofs(q) - 1) : rows' = Append(rows, Row(k))
          /\ UNCHANGED <<q, p, extra, out, edits, phase>>
Tamper == /\ rows # << >> /\ edits < MaxEdits /\ edits' = edits + 1 /\ UNCHANGED <<q, p, extra, out, phase>>
          /\ \E i \in DOMAIN rows, d \in Deltas :
               \/ rows' = [rows EXCEPT ![i].pf = FAdd(@, d)]
               \/ \E j \in 1..q.m : rows' = [rows EXCEPT ![i].v[j] = FAdd(@, d)]
               \/ rows' = [rows EXCEPT ![i].k = (@ + 1) % NumProofs(q)]
               \/ rows' = [rows EXCEPT ![i].c = 2]
Next == Prove \/ Submit \/ Tamper
Spec == Init /\ [][Next]_vars

Coms == << PEval(p, Tau), FAdd(PEval(p, Tau), F1) >>
AllGenuine == \A i \in DOMAIN rows : GenuineAt(q, Coms[rows[i].c], rows[i].k, rows[i].v, rows[i].pf, Tau)
Accepting == {r \in Fld : Equation(q, Coms, rows, r, Tau)}
(* the prover's output is the definition, whatever the parameters and the length of the key *)
ProverIsDefinition == phase = "proved" =>
  \A k \in 0..(NumProofs(q) - 1) :
     /\ out.pf[k + 1] = ProofAt(q, p, k, Tau)
     /\ \A j \in 0..(q.m - 1) : out.ev[k * q.m + j + 1] = PEval(p, FMul(ShiftAt(q, k), FPow(FRoot(q.m), RevBits(j, Log2(q.m)))))
     /\ PEq(InterpolantAt(q, SubSeq(out.ev, k * q.m + 1, (k + 1) * q.m), k), RemXmC(p, q.m, ConstAt(q, k)))
DataIsSystematic == phase = "proved" /\ q.np >= q.n /\ Len(p) = q.n =>
  LET d == BitRev(FFT(p, q.n)) IN DataToPoly(d) = p /\ SubSeq(out.ev, 1, q.n) = d
Complete == rows # << >> /\ AllGenuine => Accepting = Fld
Sound == rows # << >> /\ ~AllGenuine => Cardinality(Accepting) < Len(rows)
==============================================================================
