-------------------------------- MODULE GenMo --------------------------------
(* Behaviours of the multi-point opening library at the real field (C16). *)
EXTENDS MultiOpen, Choice, FiniteSets
CONSTANTS Rounds, From, Params, Widths
VARIABLES job, step, log
vars == <<job, step, log>>

H(v) == FSeqHex(v)
Tau(s) == FRand(SeedEnv, 800000 + Rn(s, 1, 3))
(* polynomials within the bound, of every length *)
PolyLen(q, s) == CASE Rn(s, 2, 6) = 0 -> Rn(s, 3, q.n + 1) [] Rn(s, 2, 6) = 1 -> q.n \div 2 [] Rn(s, 2, 6) = 2 -> IF q.n > 0 THEN q.n - 1 ELSE 0 [] OTHER -> q.n
Prove(op, q, s, p, arg) ==
  [op |-> op, exp |-> [r |-> "pe", p |-> H(TLCEval([k \in 1..NumProofs(q) |-> ProofAt(q, p, k - 1, Tau(s))])),
                       e |-> LET ev == TLCEval(AllEvals(q, p)) IN TLCEval([k \in 1..NumProofs(q) |-> H(SubSeq(ev, (k - 1) * q.m + 1, k * q.m))])]] @@ arg
Com(p, tau) == PEval(p, tau)

(* rows of batches *)
RowOf(q, s, p, c, k) == [c |-> c, k |-> k, v |-> EvalsAt(q, p, k), pf |-> ProofAt(q, p, k, Tau(s))]
VerifyStep(q, s, coms, rows) ==
  LET tau == Tau(s)
      ok == \A i \in DOMAIN rows : GenuineAt(q, coms[rows[i].c], rows[i].k, rows[i].v, rows[i].pf, tau)
  IN [op |-> "moverify", coms |-> H(coms), ci |-> [i \in DOMAIN rows |-> rows[i].c - 1], idx |-> [i \in DOMAIN rows |-> rows[i].k],
      evals |-> [i \in DOMAIN rows |-> H(rows[i].v)], proofs |-> H([i \in DOMAIN rows |-> rows[i].pf]), exp |-> [r |-> IF ok THEN "done" ELSE "invalid"]]
BatchLen(s) == << 1, 2, 3, 4, 5, 8, 17, 33, 65 >>[1 + Rn(s, 40, 9)]
Verifies(q, s, p1, p2) ==
  LET tau == Tau(s)  nk == NumProofs(q)  n == BatchLen(s)
      ps == <<p1, p2, << >> >>
      coms == TLCEval([x \in 1..3 |-> Com(ps[x], tau)])
      rows == TLCEval([i \in 1..n |-> LET x == 1 + Rn(s, 50 + i, 3) IN RowOf(q, s, ps[x], x, Rn(s, 500 + i, nk))])
      i0 == CASE Rn(s, 41, 4) = 0 -> 1 [] Rn(s, 41, 4) = 1 -> n [] OTHER -> 1 + Rn(s, 42, n)
      j0 == 1 + (i0 % n)  e0 == CASE Rn(s, 43, 3) = 0 -> 1 [] Rn(s, 43, 3) = 1 -> q.m [] OTHER -> 1 + Rn(s, 44, q.m)
      d == IF Rn(s, 45, 2) = 0 THEN Edge(s, 46) ELSE Rf(s, 46)
      v(rs) == VerifyStep(q, s, coms, rs)
  IN << v(rows), v(Reverse(rows)), v(rows \o rows),
        v([rows EXCEPT ![i0].v[e0] = FAdd(@, d)]),
        v([rows EXCEPT ![i0].pf = FAdd(@, d)]),
        v([rows EXCEPT ![i0].k = (@ + 1) % nk]),
        v([rows EXCEPT ![i0].k = (@ + nk \div 2) % nk]),
        v([rows EXCEPT ![i0].c = 1 + (@ % 3)]),
        v([rows EXCEPT ![i0].v = TLCEval([y \in 1..q.m |-> F0])]),
        v([rows EXCEPT ![i0].pf = rows[j0].pf, ![j0].pf = rows[i0].pf]),
        v([rows EXCEPT ![i0].v = rows[j0].v, ![j0].v = rows[i0].v]),
        v(LET w == [rows EXCEPT ![i0].pf = FAdd(@, d)] IN [w EXCEPT ![j0].pf = FSub(@, d)]),
        v(LET w == [rows EXCEPT ![i0].v[e0] = FAdd(@, d)] IN [w EXCEPT ![j0].v[e0] = FSub(@, d)]),
        v([rows EXCEPT ![i0].v = Reverse(@)]),
        v([rows EXCEPT ![i0].pf = FNeg(@)]),
        v(<< >>),
        VerifyStep(q, s, coms \o <<coms[1]>>, [i \in DOMAIN rows |-> IF rows[i].c = 1 /\ i % 2 = 0 THEN [rows[i] EXCEPT !.c = 4] ELSE rows[i]]) >>

Min2(a, b) == IF a < b THEN a ELSE b
(* the keys by themselves: a key commits to every polynomial that is not longer than it *)
KeyStep(which, len, s, p) ==
  LET tau == Tau(s) IN
  [op |-> "mokey", which |-> which, len |-> len, m |-> 1, n |-> 1, tau |-> FHex(tau), a |-> H(p),
   exp |-> [r |-> IF which = "v2" THEN "g2" ELSE "g", v |-> FHex(Com(p, tau))]]
Keys(s) ==
  LET n == << 2, 3, 5, 8, 65, 66, 129, 300 >>[1 + Rn(s, 70, 8)]  k == Rn(s, 71, n + 1)
      p(i, z) == TLCEval(AnyVec(s + i, z))
  IN << KeyStep("ck", n, s, p(1, k)), KeyStep("ck", n, s, p(2, n)), KeyStep("v1", n, s, p(3, k)), KeyStep("v1", n, s, p(4, n)),
        KeyStep("v2", Min2(n, 66), s, p(5, Min2(k, 66))), KeyStep("v2", Min2(n, 66), s, p(6, Min2(n, 66))), KeyStep("v2", Min2(n, 66), s, << F1 >>) >>
(* one job: construct, then use *)
Extra(q, s) == CASE Rn(s, 60, 6) = 0 -> 0 [] Rn(s, 60, 6) = 1 -> 1 [] Rn(s, 60, 6) = 2 -> q.m [] Rn(s, 60, 6) = 3 -> q.n [] Rn(s, 60, 6) = 4 -> Rn(s, 61, 40) [] OTHER -> 0
New(q, s, w) ==
  LET need == Max2(q.n, q.m + 1) ck == need + Extra(q, s) IN
  [op |-> "monew", n |-> q.n, m |-> q.m, np |-> q.np, ck |-> ck, vk |-> q.m + (IF Rn(s, 62, 2) = 0 THEN 0 ELSE Rn(s, 63, ck - q.m)), g2 |-> q.m + 1 + Rn(s, 64, 3), w |-> w, tau |-> FHex(Tau(s)),
   exp |-> [r |-> "n", v |-> <<NumProofs(q)>>]]
One(q, s) ==
  LET p == TLCEval(AnyVec(s, PolyLen(q, s)))  d == TLCEval(AnyVec(s + 1, q.n))  pd == TLCEval(DataToPoly(d))
  IN << Prove("moprove", q, s - (s % 100), p, [a |-> H(p)]), [op |-> "mocommit", a |-> H(p), exp |-> [r |-> "g", v |-> FHex(Com(p, Tau(s - (s % 100))))]],
        Prove("moprove", q, s - (s % 100), pd, [data |-> H(d)]), [op |-> "mocommit", data |-> H(d), exp |-> [r |-> "g", v |-> FHex(Com(pd, Tau(s - (s % 100))))]] >>
     \o (IF q.n * q.np <= 4096 \/ s % 3 = 0 THEN Verifies(q, s - (s % 100), p, pd) ELSE << >>)
Jobs == {<<r, z>> : r \in From..(From + Rounds - 1), z \in DOMAIN Params}
Par(j) == LET t == Params[j[2]] IN [n |-> t[1], m |-> t[2], np |-> t[3]]
SeedOf(j) == j[1] * 100000 + j[2] * 100
Init == job \in Jobs /\ step = 0 /\ log = << >>
Work == step = 0 /\ step' = 1 /\ UNCHANGED job
  /\ LET q == Par(job) s == SeedOf(job) w == Widths[1 + ((job[1] + job[2]) % Len(Widths))]
     IN log' = TLCEval(<< New(q, s, w) >> \o FlattenSeq([x \in 1..3 |-> One(q, s + x)]) \o Keys(s))
Finish == step = 1 /\ step' = 2 /\ UNCHANGED <<job, log>>
  /\ Emit("cases.ndjson", [kind |-> "lib", id |-> ToString(SeedOf(job)), params |-> Par(job), steps |-> log])
Next == Work \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, step>>
==============================================================================
