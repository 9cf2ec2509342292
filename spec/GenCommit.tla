------------------------------ MODULE GenCommit ------------------------------
(* Commitments of blobs of every class: expected discrete logarithm by definition (C01). *)
EXTENDS Blobs
CONSTANTS Rounds, Mode,     \* Mode: "commit" | "cells" | "compute"
          NearEvery         \* cases whose number is a multiple of it ask for related blobs too; 0: none
VARIABLES job, done

Jobs == {<<r, c>> : r \in 1..Rounds, c \in 1..Len(Classes)}
SeedOf(j) == j[1] * 1000 + j[2]
TauOf(j) == Taus[1 + (j[1] % 2)]
StepFor(blob, poly, tau) ==
  LET pt == TLCEval(Commit(poly, tau)) IN
  IF Mode = "commit" THEN [op |-> "commit", blob |-> FSeqHex(blob), exp |-> [r |-> "ok", com |-> FHex(pt)]]
  ELSE IF Mode = "cells" THEN [op |-> "compute", blob |-> FSeqHex(blob), exp |-> [r |-> "ok", cells |-> FSeqHex(Extend(poly)), proofs |-> ""]]
  ELSE [op |-> "compute", blob |-> FSeqHex(blob),
        exp |-> [r |-> "ok", com |-> FHex(pt), cells |-> FSeqHex(Extend(poly)),
                 proofs |-> FSeqHex([k \in 1..K |-> ProofViaRem(poly, k - 1, tau, pt)])]]
(* Blobs that agree with the first one in all but one or two elements, asked *)
(* for after it, and the first one again at the end: what is returned for a  *)
(* blob depends on all of it, and on nothing that was asked for before.      *)
Place(s, i) == CASE i = 1 -> 1  [] i = 2 -> N  [] i = 3 -> 1 + M * Rn(s, 41, N \div M)
                 [] i = 4 -> M * (1 + Rn(s, 42, N \div M))  [] i = 5 -> N \div 2 + Rn(s, 43, 2)  [] OTHER -> 1 + Rn(s, 43 + i, N)
NearOnes == 7
NearBlob(blob, s, i) ==
  IF i = NearOnes THEN LET x == 1 + Rn(s, 61, N) y == 1 + Rn(s, 62, N) IN
       IF blob[x] = blob[y] THEN [blob EXCEPT ![x] = FAdd(@, F1), ![y] = FAdd(@, FSub(F0, F1))] ELSE [blob EXCEPT ![x] = blob[y], ![y] = blob[x]]
  ELSE [blob EXCEPT ![Place(s, i)] = FAdd(@, IF Rn(s, 50 + i, 2) = 0 THEN F1 ELSE NonZeroF(s, 50 + i))]
NearSteps(blob, tau, s) ==
  FlattenSeq([i \in 1..NearOnes |-> IF NearEvery = 0 \/ s % NearEvery # 0 THEN << >>
     ELSE LET nb == TLCEval(NearBlob(blob, s, i)) IN << StepFor(nb, TLCEval(BlobToPoly(nb)), tau) >>])
Case(j) ==
  LET c == Classes[j[2]]  s == SeedOf(j)  tau == TauOf(j)
      m == Member(c, s)
      first == TLCEval(StepFor(m.blob, m.poly, tau))
      near == NearSteps(m.blob, tau, s)
  IN [kind |-> "das", id |-> ToString(s), cls |-> c, tau |-> FHex(tau), steps |-> << first >> \o near \o (IF near = << >> THEN << >> ELSE << first >>)]

Init == job \in Jobs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED job /\ Emit("cases.ndjson", Case(job))
Spec == Init /\ [][Next]_<<job, done>>
==============================================================================
