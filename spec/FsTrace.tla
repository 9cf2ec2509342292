------------------------------- MODULE FsTrace -------------------------------
(***************************************************************************)
(* Trace validation of the weights observed in the implementation.  Each   *)
(* record is one verification: the batch (identity, size, what was varied) *)
(* and the weights given to its tuples.  Walks the trace, remembering the  *)
(* challenge of every batch seen; findings are written out.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Emit
CONSTANTS File, MinVarying
Trace == Once("trace", ndJsonDeserialize(File))
VARIABLES at, seen, digits
vars == <<at, seen, digits>>

Informative(t) == t.n >= 2 /\ Len(t.w) = t.n
Found(what, t, u) == Emit("findings.ndjson", [what |-> what, case |-> t.case, step |-> t.step, label |-> t.what, other |-> u])
Clash(t) == {d \in DOMAIN seen : d # t.digest /\ seen[d][1] = t.w[2]}
Init == at = 1 /\ seen = << >> /\ digits = [p \in 1..64 |-> {}]
Step ==
  /\ at <= Len(Trace) /\ at' = at + 1
  /\ LET t == Trace[at] IN
     IF ~Informative(t) THEN UNCHANGED <<seen, digits>>
     ELSE /\ LET W == {t.w[i] : i \in 1..t.n} c == Clash(t) IN
             /\ IF Cardinality(W) # t.n THEN Found("two tuples of a batch have the same weight", t, "") ELSE TRUE
             /\ IF t.zero \in W THEN Found("a tuple has weight zero", t, "") ELSE TRUE
             /\ IF c # {} THEN Found("two different batches have the same challenge", t, seen[CHOOSE d \in c : TRUE][2]) ELSE TRUE
          /\ seen' = [d \in DOMAIN seen \cup {t.digest} |-> IF d = t.digest THEN <<t.w[2], t.what \o " of case " \o ToString(t.case)>> ELSE seen[d]]
          /\ digits' = [p \in 1..64 |-> digits[p] \cup {t.dig[p]}]
Varying == {p \in 1..64 : Cardinality(digits[p]) > 1}
Done == /\ at = Len(Trace) + 1 /\ at' = at + 1 /\ UNCHANGED <<seen, digits>>
        /\ IF Cardinality(DOMAIN seen) >= 20 /\ Cardinality(Varying) < MinVarying
           THEN Found("the challenge takes too few values", Trace[1], ToString(Cardinality(Varying)) \o " of 64 hexadecimal digits vary") ELSE TRUE
        /\ Emit("findings.ndjson", [what |-> "summary", batches |-> Cardinality(DOMAIN seen), varying |-> Cardinality(Varying)])
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
View == at
==============================================================================
