------------------------------ MODULE MCRsLib ------------------------------
(* A sender encodes, a channel erases blocks and alters symbols, a receiver decodes; all parameters over a small field. *)
EXTENDS RsLib, FiniteSets
CONSTANTS MaxCw, MaxFaults, Coefs
VARIABLES q, p, cw, er, faults
vars == <<q, p, cw, er, faults>>
Pow2 == {1, 2, 4, 8, 16}
Params == {[n |-> n, e |-> e, bs |-> b] : n \in Pow2, e \in Pow2, b \in Pow2}
Valid(x) == x.n * x.e <= MaxCw /\ x.bs <= x.n * x.e
Init == /\ q \in {x \in Params : Valid(x)} /\ p \in [1..q.n -> Coefs] /\ cw = Encode(q, p) /\ er = << >> /\ faults = 0
Erase(b) == (er # << >> => b > Last(er)) /\ er' = Append(er, b) /\ UNCHANGED <<cw, faults>>
Alter(i, d) == faults < MaxFaults /\ cw' = [cw EXCEPT ![i] = FAdd(@, d)] /\ faults' = faults + 1 /\ UNCHANGED er
Next == UNCHANGED <<q, p>> /\ (\E b \in 0..(q.bs - 1) : Erase(b) \/ \E i \in DOMAIN cw, d \in {1, 5} : Alter(i, d))
Spec == Init /\ [][Next]_vars
Survivors == {i \in 0..(CwLen(q) - 1) : ~ErasedPos(q, er, i)}
(* textbook: the interpolant of the first n survivors, kept if it fits the rest *)
FirstN == LET s == SetToSortSeq(Survivors, LAMBDA x, y : x < y) IN SubSeq(s, 1, q.n)
Textbook == LET f == FirstN r == Roots(CwLen(q)) IN PadTo(Lagrange([i \in DOMAIN f |-> r[f[i] + 1]], [i \in DOMAIN f |-> cw[f[i] + 1]]), q.n)
DecodeIsDefinition ==
  LET d == Decode(q, er, cw) IN
  IF Len(er) <= Capacity(q)
  THEN LET t == Textbook IN IF Fits(q, er, cw, t) THEN d = [ok |-> TRUE, p |-> t] ELSE ~d.ok
  ELSE ~d.ok
RoundTrip == (faults = 0 /\ Len(er) <= Capacity(q)) => Decode(q, er, cw) = [ok |-> TRUE, p |-> p]
(* fewer changed survivors than the redundancy: an error (what GenRsLib relies on) *)
Changed == {i \in Survivors : cw[i + 1] # Encode(q, p)[i + 1]}
FewChangesNoticed == (Len(er) <= Capacity(q) /\ Changed # {} /\ Cardinality(Changed) <= Cardinality(Survivors) - q.n) => ~Decode(q, er, cw).ok
CapacityIsTight == Capacity(q) < q.bs /\ (q.e > 1 => (Capacity(q) + 1) * NumBlocks(q) > CwLen(q) - q.n)
=============================================================================
