------------------------------- MODULE GenBlob -------------------------------
(***************************************************************************)
(* Which byte strings are blobs.  A submitted blob is a base blob with     *)
(* some elements overwritten: <<position, a, j>> writes the integer        *)
(* a + j * R, so j = 0 is a canonical element and every 32-byte string is  *)
(* a + j * R for exactly one (a, j), 0 <= a < R, j in {0, 1, 2}.           *)
(***************************************************************************)
EXTENDS Blobs
CONSTANTS Rounds, PerBlob, From
VARIABLES job, base, step, log
vars == <<job, base, step, log>>

Canonical(patch) == \A i \in DOMAIN patch : patch[i][3] = 0
Apply(blob, patch) == FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e[1]] = e[2]], blob, patch)
BlobResult(blob, patch, op, tau) ==
  IF ~Canonical(patch) THEN [r |-> "err"]
  ELSE LET p == BlobToPoly(TLCEval(Apply(blob, patch))) pt == Commit(p, tau) IN
       IF op = "commit" THEN [r |-> "ok", com |-> FHex(pt)]
       ELSE [r |-> "ok", com |-> FHex(pt), cells |-> FSeqHex(Extend(p)), proofs |-> FSeqHex([k \in 1..K |-> ProofViaRem(p, k - 1, tau, pt)])]

MaxOver2 == FSub(FPow(Two, 256), F1)      \* 2^256 - 1 = MaxOver2 + 2R
Sources(s, x) ==       \* residues whose aliases are boundary integers
  CASE Rn(s, x, 10) = 0 -> F0                                      \* R, 2R
    [] Rn(s, x, 10) = 1 -> F1
    [] Rn(s, x, 10) = 2 -> FNeg(F1)                                \* 2R - 1
    [] Rn(s, x, 10) = 3 -> MaxOver2
    [] Rn(s, x, 10) = 4 -> FPow(Two, 255)                          \* 2^255
    [] Rn(s, x, 10) = 5 -> FSub(FPow(Two, 255), F1)
    [] Rn(s, x, 10) = 6 -> FPow(Two, Rn(s, x + 1, 255))            \* R + 2^i
    [] Rn(s, x, 10) = 7 -> FSub(FPow(Two, 255), FPow(Two, Rn(s, x + 1, 254)))
    [] Rn(s, x, 10) = 8 -> Edge(s, x + 1)
    [] OTHER -> Rf(s, x + 1)
Over(pos, a, j) == IF FHexAlias(a, j) # "" THEN <<pos, a, j>> ELSE <<pos, a, 1>>
Jobs == {<<r, c>> : r \in From..(From + Rounds - 1), c \in 1..Len(Classes)}
SeedOf(j) == j[1] * 100000 + j[2] * 1000
TauOf(j) == Taus[1 + (j[1] % 4)]
Cnt(j, k) == ((j[1] - From) * Len(Classes) + j[2] - 1) * PerBlob + k
PosOf(j, k) == 1 + ((Cnt(j, k) * 1237 + Rn(j[1], 5, N)) % N)      \* runs through every position
GoodStep(k) == (k % 20) = 0
PatchOf(j, k) ==
  LET s == SeedOf(j) + k pos == PosOf(j, k) c == Rn(s, 2, 12) IN
  IF GoodStep(k) THEN
       (CASE Rn(s, 3, 4) = 0 -> << >>
          [] Rn(s, 3, 4) = 1 -> << <<pos, FNeg(F1), 0>> >>
          [] Rn(s, 3, 4) = 2 -> << <<pos, Edge(s, 4), 0>>, <<1, FNeg(F1), 0>>, <<N, FNeg(Two), 0>> >>
          [] OTHER -> [i \in 1..20 |-> <<1 + ((pos + 61 * i) % N), Edge(s, 20 + i), 0>>])
  ELSE CASE c = 0 -> << Over(pos, Sources(s, 5), 1), Over(1 + (pos % N), Sources(s, 7), 1) >>
         [] c = 1 -> << Over(pos, Sources(s, 5), 2), <<1 + (pos % N), FNeg(F1), 0>> >>
         [] c = 2 -> << Over(pos, Sources(s, 5), 2), Over(1 + ((pos + 2047) % N), Sources(s, 7), 2) >>
         [] c = 3 -> [i \in 1..40 |-> Over(1 + ((pos + 99 * i) % N), Sources(s, 30 + 2 * i), 1 + (i % 2))]
         [] c = 4 -> << Over(pos, base[pos], 1) >>               \* the same value plus the modulus
         [] OTHER -> << Over(pos, Sources(s, 5), 1 + Rn(s, 9, 2)) >>
OpOf(j, k) == IF (Cnt(j, k) % 2 = 1) \/ (GoodStep(k) /\ k % 60 # 0) THEN "commit" ELSE "compute"
Init == job \in Jobs /\ base = << >> /\ step = 0 /\ log = << >>
Base == step = 0 /\ step' = 1 /\ UNCHANGED <<job, log>> /\ base' = TLCEval(Member(Classes[job[2]], SeedOf(job)).blob)
Submit == /\ step \in 1..PerBlob /\ step' = step + 1 /\ UNCHANGED <<job, base>>
          /\ LET patch == TLCEval(PatchOf(job, step)) op == OpOf(job, step) IN
             log' = Append(log, [op |-> op, blob |-> [base |-> "$b", patch |-> [i \in DOMAIN patch |-> <<patch[i][1] - 1, FHexAlias(patch[i][2], patch[i][3])>>]],
                                 exp |-> TLCEval(BlobResult(base, patch, op, TauOf(job)))])
Finish == /\ step = PerBlob + 1 /\ step' = step + 1 /\ UNCHANGED <<job, base, log>>
          /\ Emit("cases.ndjson", [kind |-> "das", id |-> ToString(SeedOf(job)), cls |-> Classes[job[2]], tau |-> FHex(TauOf(job)), defs |-> [b |-> FSeqHex(base)], steps |-> log])
Next == Base \/ Submit \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, step>>
==============================================================================
