------------------------------- MODULE GenDas -------------------------------
(***************************************************************************)
(* Behaviours of the batch state machine at the real parameters.  Each     *)
(* behaviour loads a batch of genuine openings, then repeatedly lets the   *)
(* adversary edit it (or undoes the edits) and verifies.  Expected results *)
(* are VerifyResult of the state reached.                                  *)
(***************************************************************************)
EXTENDS Rows
CONSTANTS Mode,         \* "complete" | "sound" | "distances" | "pairs" | "malformed" | "mixed"
          Sizes,        \* sequence of batch sizes, one behaviour each per round
          Rounds, PerBatch, From
VARIABLES job, b, good, step, log
vars == <<job, b, good, step, log>>

(* ---- behaviours ---- *)
PairsOf(n) == FlattenSeq([i \in 1..(n - 1) |-> [d \in 1..(n - i) |-> <<i, i + d>>]])
Jobs == {<<r, z>> : r \in From..(From + Rounds - 1), z \in DOMAIN Sizes}
SeedOf(j) == j[1] * 10000 + j[2] * 100
TauOf(j) == Taus[1 + (j[1] % 4)]
TypeOf(j) == RowTypes[1 + ((j[1] * 5 + j[2]) % Len(RowTypes))]
EditsFor(j, k, bb, gd) ==      \* step k >= 1
  LET s == SeedOf(j) + k  c == (j[1] * Len(Sizes) + j[2]) * PerBatch + k  tau == TauOf(j) IN
  CASE Mode = "complete" -> << <<"restore">>, <<"rows", TLCEval(Reorder(c % 8, s, Len(gd.idx)))>> >>
    [] Mode = "sound" -> << <<"restore">> >> \o Tamper(TamperKinds[1 + (c % Len(TamperKinds))], s, gd, tau)
    [] Mode = "distances" ->      \* two tuples k apart miss the equation by opposite amounts, through every pair of components in turn
         LET n == Len(gd.idx)  i == 1 + Rn(s, 1, n - k)  e == IF Rn(s, 9, 2) = 0 THEN F1 ELSE Rf(s, 11)  w == Rn(s, 21, 9)
         IN << <<"restore">> >> \o Miss(gd, i, e, w % 3, tau) \o Miss(gd, i + k, FNeg(e), w \div 3, tau)
    [] Mode = "pairs" ->          \* any two tuples miss the equation by opposite amounts
         LET p == PairsOf(Len(gd.idx))[k]  e == IF Rn(s, 9, 2) = 0 THEN F1 ELSE Rf(s, 11)  w == Rn(s, 21, 9)
         IN << <<"restore">> >> \o Miss(gd, p[1], e, w % 3, tau) \o Miss(gd, p[2], FNeg(e), w \div 3, tau)
    [] Mode = "malformed" -> << <<"restore">> >> \o Malform(MalformKinds[1 + (c % Len(MalformKinds))], s, gd, tau)
    [] Mode = "mixed" -> << <<"restore">> >> \o
         (IF k % 3 = 0 THEN << <<"rows", TLCEval(Reorder(Rn(s, 71, 4), s, Len(gd.idx)))>> >>
          ELSE IF k % 3 = 1 THEN Tamper(TamperKinds[1 + Rn(s, 72, Len(TamperKinds))], s, gd, tau)
          ELSE Malform(MalformKinds[1 + Rn(s, 73, Len(MalformKinds))], s, gd, tau))
VStep(edits, bb) == [op |-> "vedit", edits |-> edits, exp |-> [r |-> VerifyResult(bb)]]

Init == job \in Jobs /\ b = EmptyBatch /\ good = EmptyBatch /\ step = 0 /\ log = << >>
Load == step = 0 /\ step' = 1 /\ UNCHANGED job
  /\ b' = TLCEval(LoadBatch(SeedOf(job), TypeOf(job), Sizes[job[2]], TauOf(job)))
  /\ good' = b'
  /\ log' = << VStep(<< <<"load", EncBatch(b')>> >>, b') >>
Steps == IF Mode = "distances" THEN Sizes[job[2]] - 1 ELSE IF Mode = "pairs" THEN Len(PairsOf(Sizes[job[2]])) ELSE PerBatch
Edit == step >= 1 /\ step <= Steps /\ step' = step + 1 /\ UNCHANGED <<job, good>>
  /\ LET es == TLCEval(EditsFor(job, step, b, good))
         nb == TLCEval(ApplyAll(b, es, good, TauOf(job)))
     IN b' = nb /\ log' = Append(log, VStep([x \in DOMAIN es |-> EncEdit(es[x])], nb))
Finish == step = Steps + 1 /\ step' = step + 1 /\ UNCHANGED <<job, b, good, log>>
  /\ Emit("cases.ndjson", [kind |-> "das", id |-> ToString(SeedOf(job)), cls |-> TypeOf(job), n |-> Sizes[job[2]], tau |-> FHex(TauOf(job)), steps |-> log])
Next == Load \/ Edit \/ Finish
Spec == Init /\ [][Next]_vars
LoadedGenuine == (step >= 1) => VerifyResult(good) = "ok"
View == <<job, step>>
==============================================================================
