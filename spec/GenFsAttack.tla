----------------------------- MODULE GenFsAttack -----------------------------
(***************************************************************************)
(* An adaptive adversary.  It learned the weights the implementation gives *)
(* to the tuples of a false batch S (first tuple i wrong by e) and changes *)
(* one component of another tuple j so that, under those weights, the two  *)
(* errors cancel.  The result is a false batch, so verification must       *)
(* reject it: it does iff the changed component changes the weights.       *)
(***************************************************************************)
EXTENDS Rows, Json
CONSTANTS File, Bases, Rounds, From, Recorded   \* Recorded = FALSE: emit the false batches S; TRUE: emit the attacks
Weights == IF Recorded THEN Once("weights", ndJsonDeserialize(File)) ELSE << >>
VARIABLES job, log, st, good
vars == <<job, log, st, good>>

Jobs == {<<r, z>> : r \in From..(From + Rounds - 1), z \in DOMAIN Bases}
SeedOf(j) == 60000000 + j[1] * 10000 + j[2] * 100
TauOf(j) == Taus[1 + (j[1] % 4)]
TypeOf(j) == << "algebra", "samecom", "twocom", "mixed", "sparse", "idproof", "repeat", "allidx" >>[1 + ((j[1] + j[2]) % 8)]
RowI(j) == LET n == Bases[j[2]] IN Pos(SeedOf(j), 1, n)
Err(j) == NonZeroF(SeedOf(j), 11)
FalseBase(j, gd) == ApplyAll(gd, Miss(gd, RowI(j), Err(j), Rn(SeedOf(j), 21, 3), TauOf(j)), gd, TauOf(j))

(* the value at tau of the interpolant that is 1 at element p of cell k and 0 elsewhere *)
Unit(p) == [x \in 1..M |-> IF x = p THEN F1 ELSE F0]
(* change component c of tuple j so that it misses by f, given that it is genuine *)
MissBy(bb, j, f, c, p, tau) ==
  IF c < 3 THEN Miss(bb, j, f, c, tau)
  ELSE LET u == PEval(CellInterpolant(Unit(p), bb.idx[j]), tau) IN
       << <<"cell", j, CellV([bb.cells[j].v EXCEPT ![p] = FSub(@, FMul(f, FInv(u)))])>> >>
CompName == << "commitment", "proof", "cell" >>
Elems == << 1, 2, 3, 5, 8, 16, 17, 31, 32, 33, 40, 48, 49, 63, M >>
Attack(j, x, base, w) ==   \* x-th attack on base
  LET n == Len(base.idx)  i == RowI(j)  s == SeedOf(j) + x
      t == Pos2(s, 3, n, i)
      c == IF x <= 3 THEN x - 1 ELSE 3
      p == IF x <= 3 THEN 1 ELSE IF x - 3 <= Len(Elems) THEN Elems[x - 3] ELSE 1 + Rn(s, 5, M)
      f == FNeg(FMul(FMul(FFromHex(w[i]), Err(j)), FInv(FFromHex(w[t]))))
  IN [name |-> IF c < 3 THEN CompName[c + 1] ELSE "cell element " \o ToString(p), row |-> t, edits |-> MissBy(base, t, f, c, p, TauOf(j))]
NAttack == 3 + Len(Elems) + 2

VStep(what, edits, r) == [op |-> "vedit", what |-> what, edits |-> edits, exp |-> [r |-> r]]
Init == job \in Jobs /\ log = << >> /\ st = 0 /\ good = EmptyBatch
WeightsOf(j) == LET m == {x \in DOMAIN Weights : Weights[x].id = ToString(SeedOf(j))} IN IF m = {} THEN << >> ELSE Weights[CHOOSE x \in m : TRUE].w
Load == st = 0 /\ st' = 1 /\ UNCHANGED job
  /\ LET gd == TLCEval(LoadBatch(SeedOf(job), TypeOf(job), Bases[job[2]], TauOf(job)))
     IN good' = TLCEval(FalseBase(job, gd))
  /\ log' = << VStep("base", << <<"load", EncBatch(good')>> >>, VerifyResult(good')) >>
Go == st \in 1..NAttack /\ st' = st + 1 /\ UNCHANGED <<job, good>>
  /\ IF ~Recorded \/ Len(WeightsOf(job)) # Len(good.idx) THEN UNCHANGED log
     ELSE LET a == TLCEval(Attack(job, st, good, WeightsOf(job)))
              nb == TLCEval(ApplyAll(good, a.edits, good, TauOf(job)))
              def(x) == Defect(nb.coms[x].d, nb.idx[x], nb.cells[x].v, nb.proofs[x].d, TauOf(job))
              w == WeightsOf(job)
          IN /\ Assert(FAdd(FMul(FFromHex(w[RowI(job)]), def(RowI(job))), FMul(FFromHex(w[a.row]), def(a.row))) = F0, "the attack does not cancel")
             /\ log' = Append(log, VStep(a.name \o " of tuple " \o ToString(a.row), << <<"restore">> >> \o [x \in DOMAIN a.edits |-> EncEdit(a.edits[x])], VerifyResult(nb)))
Finish == st = NAttack + 1 /\ st' = st + 1 /\ UNCHANGED <<job, good, log>>
  /\ Emit("cases.ndjson", [kind |-> "das", id |-> ToString(SeedOf(job)), cls |-> TypeOf(job), n |-> Bases[job[2]], tau |-> FHex(TauOf(job)), steps |-> log])
Next == Load \/ Go \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, st>>
(* the bases are false; that the weighted errors cancel in each attack is asserted where it is made *)
BaseFalse == st >= 1 => VerifyResult(good) = "invalid"
==============================================================================
