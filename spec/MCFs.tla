-------------------------------- MODULE MCFs --------------------------------
(***************************************************************************)
(* Why the challenge must bind everything.  Exhaustive, small.             *)
(*                                                                         *)
(* phase "pair": two batches; the transcript hashed by the verifier tells  *)
(* any two different batches apart, and stops doing so as soon as one      *)
(* component is left out of it.                                            *)
(* phase "err": the errors by which the tuples of a false batch miss the   *)
(* equation; fewer challenges than there are tuples can hide them, but if  *)
(* the adversary may still choose one error after seeing the weights, one  *)
(* always can be hidden.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P,            \* a prime, the field of the second phase
          MaxRows, MaxErr
VARIABLES phase, a, b, e
vars == <<phase, a, b, e>>
V == {0, 1}
Rows == [com : V, k : V, cell : V, proof : V]
Batches == UNION {[1..n -> Rows] : n \in 0..MaxRows}

Dedup(q) == LET RECURSIVE go(_, _)
                go(i, acc) == IF i > Len(q) THEN acc ELSE go(i + 1, IF \E x \in DOMAIN acc : acc[x] = q[i] THEN acc ELSE Append(acc, q[i]))
            IN go(1, << >>)
Place(u, x) == CHOOSE i \in DOMAIN u : u[i] = x
Parts == {"coms", "assoc", "idx", "cell", "proof"}
Flat(q) == LET RECURSIVE go(_) go(i) == IF i > Len(q) THEN << >> ELSE q[i] \o go(i + 1) IN go(1)
(* what is hashed: numbers of commitments and of tuples, distinct commitments in order of appearance, tuples *)
Transcript(q, omit) ==
  LET u == Dedup([i \in DOMAIN q |-> q[i].com])
      on(p, x) == IF p = omit THEN << >> ELSE << x >>
  IN <<Len(u), Len(q)>> \o (IF omit = "coms" THEN << >> ELSE u)
     \o Flat([i \in DOMAIN q |-> on("assoc", Place(u, q[i].com)) \o on("idx", q[i].k) \o on("cell", q[i].cell) \o on("proof", q[i].proof)])

Errs == UNION {[1..n -> 0..(P - 1)] : n \in 1..MaxErr}
Init == \/ phase = "pair" /\ a \in Batches /\ b \in Batches /\ e = << >>
        \/ phase = "err" /\ a = << >> /\ b = << >> /\ e \in Errs
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Binding == (phase = "pair" /\ a # b) => Transcript(a, "none") # Transcript(b, "none")
(* every part is needed: exhibited by one pair of batches differing in that part only *)
R0 == [com |-> 0, k |-> 0, cell |-> 0, proof |-> 0]
Witness(p) == CASE p = "coms"  -> << <<R0>>, <<[R0 EXCEPT !.com = 1]>> >>
                [] p = "assoc" -> << <<R0, [R0 EXCEPT !.com = 1], R0>>, <<R0, [R0 EXCEPT !.com = 1], [R0 EXCEPT !.com = 1]>> >>
                [] p = "idx"   -> << <<R0>>, <<[R0 EXCEPT !.k = 1]>> >>
                [] p = "cell"  -> << <<R0>>, <<[R0 EXCEPT !.cell = 1]>> >>
                [] p = "proof" -> << <<R0>>, <<[R0 EXCEPT !.proof = 1]>> >>
Needed == \A p \in Parts : LET w == Witness(p) IN
            w[1] # w[2] /\ Transcript(w[1], p) = Transcript(w[2], p) /\ Transcript(w[1], "none") # Transcript(w[2], "none")
ASSUME Needed

RECURSIVE Pow(_, _)
Pow(r, n) == IF n = 0 THEN 1 ELSE (r * Pow(r, n - 1)) % P
RECURSIVE Comb(_, _, _)
Comb(q, r, i) == IF i > Len(q) THEN 0 ELSE ((q[i] * Pow(r, i - 1)) + Comb(q, r, i + 1)) % P
Hiding(q) == {r \in 0..(P - 1) : Comb(q, r, 1) = 0}
FewChallengesHide == (phase = "err" /\ \E i \in DOMAIN e : e[i] # 0) => Cardinality(Hiding(e)) <= Len(e) - 1
AdaptiveAlwaysHides ==
  (phase = "err" /\ Len(e) >= 2) => \A r \in 1..(P - 1) : \E x \in 0..(P - 1) : Comb([e EXCEPT ![Len(e)] = x], r, 1) = 0
=============================================================================
