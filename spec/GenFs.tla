-------------------------------- MODULE GenFs --------------------------------
(***************************************************************************)
(* Batches and, for each, variants that differ in a single component, for  *)
(* observing the weights that verification gives to tuples (FsTrace).      *)
(***************************************************************************)
EXTENDS Rows
CONSTANTS Sizes, Rounds, From, Full     \* Full: every element of one cell
VARIABLES job, plan, good, step, log
vars == <<job, plan, good, step, log>>

Jobs == {<<r, z>> : r \in From..(From + Rounds - 1), z \in DOMAIN Sizes}
SeedOf(j) == 40000000 + j[1] * 10000 + j[2] * 100
TauOf(j) == Taus[1 + (j[1] % 4)]
TypeOf(j) == RowTypes[1 + ((j[1] * 5 + j[2]) % Len(RowTypes))]
El(i, v, p, x) == <<"cell", i, CellV([v EXCEPT ![p] = FAdd(@, x)])>>

(* a change of v that mostly touches the single byte k of its encoding *)
Bit(v, k) == IF k < 254 THEN FPow(Two, k) ELSE FPow(Two, 254 - (k % 6))

OneRow(s, bb, i, elems) ==
  LET n == Len(bb.idx) v == bb.cells[i].v j == Pos2(s, 61, n, i)
      step_(d) == (bb.idx[i] + d) % K
  IN << <<"commitment", << <<"com", i, Pt(Rf(s, 62))>> >> >>,
        <<"commitment sign", << <<"com", i, Pt(FNeg(FAdd(bb.coms[i].d, F1)))>> >> >>,
        <<"association", << <<"com", i, bb.coms[j]>> >> >>,
        <<"index", << <<"idx", i, step_(1)>> >> >>,
        <<"index", << <<"idx", i, step_(K \div 2)>> >> >>,
        <<"proof", << <<"proof", i, Pt(Rf(s, 63))>> >> >>,
        <<"proof sign", << <<"proof", i, Pt(FNeg(FAdd(bb.proofs[i].d, F1)))>> >> >>,
        <<"proof position", << <<"proof", i, bb.proofs[j]>>, <<"proof", j, bb.proofs[i]>> >> >>,
        <<"cell position", << <<"cell", i, bb.cells[j]>>, <<"cell", j, bb.cells[i]>> >> >>,
        <<"index position", << <<"idx", i, bb.idx[j]>>, <<"idx", j, bb.idx[i]>> >> >>,
        <<"association position", << <<"com", i, bb.coms[j]>>, <<"com", j, bb.coms[i]>> >> >>,
        <<"tuple order", << <<"rows", TLCEval([x \in 1..n |-> IF x = i THEN j ELSE IF x = j THEN i ELSE x])>> >> >> >>
     \o TLCEval([x \in DOMAIN elems |-> <<"cell element " \o ToString(elems[x]), << El(i, v, elems[x], Bit(v[elems[x]], IF x % 3 = 0 THEN Rn(s, 70 + x, 8) ELSE IF x % 3 = 1 THEN 224 + Rn(s, 70 + x, 30) ELSE Rn(s, 70 + x, 254))) >> >>])
RowsOf(s, n) == LET w == {1, n} \cup (IF n >= 64 THEN {64} ELSE {}) \cup (IF n > 64 THEN {65} ELSE {}) \cup (IF n > 128 THEN {128, 129} ELSE {}) \cup {1 + Rn(s, 64, n)}
                IN SetToSortSeq(w, LAMBDA x, y : x < y)
(* One place of the batch takes one edge value after another: an element of a *)
(* cell, a commitment, a proof.  No two of these batches are the same.        *)
Ends == << F0, F1, FNeg(F1), Two, FNeg(Two), Half, FNeg(Half) >>
Edges(s, bb) ==
  LET i == 1 + Rn(s, 66, Len(bb.idx)) p == 1 + Rn(s, 67, M) v == bb.cells[i].v
      at(what, k, xs) == TLCEval([y \in DOMAIN xs |-> <<what \o " of value " \o FHex(xs[y]), << <<k, i, IF k = "cell" THEN CellV([v EXCEPT ![p] = xs[y]]) ELSE Pt(xs[y])>> >> >>])
  IN at("cell element", "cell", EdgeScalars) \o at("commitment", "com", Ends) \o at("proof", "proof", Ends)
Plan(s, bb) ==
  LET n == Len(bb.idx) rs == RowsOf(s, n) full == 1 + Rn(s, 65, n)
      els(i) == << 1, M, 1 + Rn(s, 66 + i, M), 1 + Rn(s, 300 + i, M), 2 + Rn(s, 600 + i, M - 2) >>
  IN FoldLeft(LAMBDA acc, x : acc \o OneRow(s + x, bb, rs[x], els(rs[x])), << >>, TLCEval([x \in DOMAIN rs |-> x]))
     \o << <<"number of tuples", << <<"rows", [x \in 1..(n - 1) |-> x]>> >> >>,
           <<"number of tuples", << <<"rows", [x \in 1..(n + 1) |-> IF x <= n THEN x ELSE 1]>> >> >> >>
     \o (IF Full THEN TLCEval([x \in 1..M |-> <<"cell element " \o ToString(x), << El(full, bb.cells[full].v, x, Bit(bb.cells[full].v[x], 8 * (x % 32) + Rn(s, 1000 + x, 6))) >> >>]) ELSE << >>)
     \o (IF n <= 8 THEN Edges(s, bb) ELSE << >>)
     \o << <<"same", << >> >> >>

VStep(what, edits) == [op |-> "vedit", what |-> what, edits |-> edits, exp |-> [r |-> "any"]]
Init == job \in Jobs /\ plan = << >> /\ good = EmptyBatch /\ step = 0 /\ log = << >>
Load == step = 0 /\ step' = 1 /\ UNCHANGED job
  /\ good' = TLCEval(LoadBatch(SeedOf(job), TypeOf(job), Sizes[job[2]], TauOf(job)))
  /\ plan' = TLCEval(Plan(SeedOf(job), good'))
  /\ log' = << VStep("base", << <<"load", EncBatch(good')>> >>) >>
Vary == step \in DOMAIN plan /\ step' = step + 1 /\ UNCHANGED <<job, plan, good>>
  /\ log' = Append(log, VStep(plan[step][1], << <<"restore">> >> \o TLCEval([x \in DOMAIN plan[step][2] |-> EncEdit(plan[step][2][x])])))
Finish == step > 0 /\ step = Len(plan) + 1 /\ step' = step + 1 /\ UNCHANGED <<job, plan, good, log>>
  /\ Emit("cases.ndjson", [kind |-> "fs", id |-> ToString(SeedOf(job)), cls |-> TypeOf(job), n |-> Sizes[job[2]], tau |-> FHex(TauOf(job)), steps |-> log])
Next == Load \/ Vary \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, step>>
==============================================================================
