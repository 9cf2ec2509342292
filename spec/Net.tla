-------------------------------- MODULE Net --------------------------------
(***************************************************************************)
(* The operations put together: a network in which publishers release some *)
(* of the cells of their blobs, an adversary who cannot break the          *)
(* commitment scheme adds messages of its own, and nodes verify what they  *)
(* receive in batches, keep what is accepted, recover as soon as they hold *)
(* half of the cells of a commitment, and release what they recovered.     *)
(*                                                                         *)
(* Design says how a node uses the operations: "right" verifies a batch    *)
(* and, when it is not accepted, its tuples one by one; the others are     *)
(* mistakes that the properties below exclude.                             *)
(***************************************************************************)
EXTENDS Rs, FiniteSets
CONSTANTS Polys,       \* the committed polynomials, a sequence
          Held1,       \* which sets of cells of the first blob may be released at the start; of the others the first half
          Nodes, Design, MaxForge, MaxBatch, Deltas
VARIABLES air, held, recovered, failed
vars == <<air, held, recovered, failed>>
NTau == CHOOSE t \in Fld : t # 0 /\ FPow(t, 2 * N) # 1
Ks == 0..(K - 1)
Coms == TLCEval([q \in DOMAIN Polys |-> Commit(Polys[q], NTau)])
ASSUME \A p, q \in DOMAIN Polys : p # q => Coms[p] # Coms[q]
RealCell == TLCEval([q \in DOMAIN Polys |-> TLCEval([k \in Ks |-> CellOf(Extend(Polys[q]), k)])])
IsReal(com, k, cell) == k \in Ks /\ \E q \in DOMAIN Polys : Coms[q] = com /\ RealCell[q][k] = cell
Message(com, k, cell, proof) ==
  [com |-> com, k |-> k, cell |-> cell, proof |-> proof,
   verdict |-> TupleVerdict(Pt(com), k, CellV(cell), Pt(proof), NTau), real |-> IsReal(com, k, cell)]
Msgs == TLCEval([q \in DOMAIN Polys |-> TLCEval([k \in Ks |-> Message(Coms[q], k, RealCell[q][k], Proof(Polys[q], k, NTau))])])
Every == UNION {{Msgs[q][k] : k \in Ks} : q \in DOMAIN Polys}
(* what the adversary can make of the messages of others *)
Forged(m) ==
  {Message(x.com, m.k, m.cell, m.proof) : x \in Every} \cup {Message(m.com, k, m.cell, m.proof) : k \in Ks \cup {K}}
  \cup {Message(m.com, m.k, x.cell, m.proof) : x \in Every} \cup {Message(m.com, m.k, m.cell, x.proof) : x \in Every}
  \cup {Message(m.com, m.k, x.cell, x.proof) : x \in Every}
  \cup {Message(m.com, m.k, [m.cell EXCEPT ![1] = FAdd(@, d)], m.proof) : d \in Deltas}
  \cup {Message(m.com, m.k, m.cell, FAdd(m.proof, d)) : d \in Deltas} \cup {Message(FNeg(m.com), m.k, m.cell, m.proof)}
(* binding: a false opening that would be accepted cannot be found without the secret *)
Forgeries == TLCEval({f \in UNION {Forged(m) : m \in Every} : f \notin Every /\ ~(f.verdict = "yes" /\ ~f.real)})
Start(q) == IF q = 1 THEN Held1 ELSE {0..(Half2 - 1)}
Init ==
  /\ \E h \in [DOMAIN Polys -> UNION {Start(q) : q \in DOMAIN Polys}], fs \in {{}} \cup {{f} : f \in Forgeries} :
       /\ \A q \in DOMAIN Polys : h[q] \in Start(q)
       /\ Cardinality(fs) <= MaxForge
       /\ air = fs \cup UNION {{Msgs[q][k] : k \in h[q]} : q \in DOMAIN Polys}
  /\ held = [n \in Nodes |-> {}] /\ recovered = [n \in Nodes |-> {}] /\ failed = {}
BatchOf(q) == Refresh([coms |-> [i \in DOMAIN q |-> Pt(q[i].com)], idx |-> [i \in DOMAIN q |-> q[i].k], cells |-> [i \in DOMAIN q |-> CellV(q[i].cell)],
                       proofs |-> [i \in DOMAIN q |-> Pt(q[i].proof)], verd |-> << >>], {}, NTau)
Verdict(q) == VerifyResult(BatchOf(q))
Kept(q) ==
  CASE Design = "none"  -> {q[i] : i \in DOMAIN q}
    [] Design = "first" -> IF Verdict(<<q[1]>>) = "ok" THEN {q[i] : i \in DOMAIN q} ELSE {}
    [] Design = "any"   -> IF \E i \in DOMAIN q : Verdict(<<q[i]>>) = "ok" THEN {q[i] : i \in DOMAIN q} ELSE {}
    [] Design = "noerr" -> IF Verdict(q) # "invalid" THEN {q[i] : i \in DOMAIN q} ELSE {q[i] : i \in {x \in DOMAIN q : Verdict(<<q[x]>>) = "ok"}}
    [] OTHER            -> IF Verdict(q) = "ok" THEN {q[i] : i \in DOMAIN q} ELSE {q[i] : i \in {x \in DOMAIN q : Verdict(<<q[x]>>) = "ok"}}
Batches(S) == {q \in UNION {[1..n -> S] : n \in 1..MaxBatch} : \A i, j \in DOMAIN q : i < j => q[i] # q[j]}
Deliver(n) == \E q \in Batches(air \ held[n]) :
  /\ held' = [held EXCEPT ![n] = @ \cup Kept(q)] /\ held' # held /\ UNCHANGED <<air, recovered, failed>>
Of(n, c) == IF Design = "mixed" THEN {m \in held[n] : m.k \in Ks} ELSE {m \in held[n] : m.com = c}
InOrder(S) == SortSeq(SetToSeq(S), LAMBDA x, y : x.k < y.k)
Enough == IF Design = "less" THEN Half2 - 1 ELSE Half2
Recover(n) == \E c \in {m.com : m \in held[n]} :
  LET ms == InOrder(Of(n, c))
      r == RecoverResult([i \in DOMAIN ms |-> ms[i].k], [i \in DOMAIN ms |-> CellV(ms[i].cell)])
      ext == Extend(r.poly)
      new == {Message(c, k, CellOf(ext, k), Proof(r.poly, k, NTau)) : k \in Ks}
  IN /\ Cardinality({m.k : m \in Of(n, c)}) >= Enough /\ c \notin recovered[n] /\ \A f \in failed : f # <<n, c>>
     /\ IF r.ok THEN /\ recovered' = [recovered EXCEPT ![n] = @ \cup {c}] /\ held' = [held EXCEPT ![n] = @ \cup new]
                     /\ air' = air \cup new /\ UNCHANGED failed
        ELSE failed' = failed \cup {<<n, c>>} /\ UNCHANGED <<air, held, recovered>>
Next == \E n \in Nodes : Deliver(n) \/ Recover(n)
Spec == Init /\ [][Next]_vars

(* nothing is kept that was not committed to *)
HeldIsReal == \A n \in Nodes : \A m \in held[n] : m.real
(* whoever holds half of the cells of a commitment can recover *)
RecoveryNeverFails == failed = {}
(* what is recovered is what was committed to: its cells and proofs, its commitment, its first half *)
RecoveredIsCommitted == \A n \in Nodes : \A c \in recovered[n] : \E q \in DOMAIN Polys :
  /\ Coms[q] = c /\ \A k \in Ks : Msgs[q][k] \in held[n]
  /\ Commit(BlobToPoly(FlattenSeq([k \in 1..(K \div 2) |-> RealCell[q][k - 1]])), NTau) = c
(* what a node releases is accepted by every other *)
ReleasedIsAccepted == \A n \in Nodes : \A m \in held[n] : m.com \in recovered[n] => m.verdict = "yes"
(* one by one accepts exactly what the verdict on the batch says: accepted iff nothing is left out *)
SplitAgrees == \A q \in Batches(air) : Len(q) = 2 => (Verdict(q) = "ok" <=> \A i \in DOMAIN q : q[i].verdict = "yes")
============================================================================
