------------------------------- MODULE GenBind -------------------------------
(***************************************************************************)
(* Histories of calls through a language interface.  The interfaces only   *)
(* know the published setup, whose secret nobody knows, so arguments are   *)
(* built from blobs and from references to what the library returns for    *)
(* them ({"com": b}, {"proof": [b, k]}, {"cell": [b, k]}), which a         *)
(* resolver replaces by bytes; want is the outcome the specification of    *)
(* the operation predicts.                                                 *)
(*                                                                         *)
(* Bind = "c" | "node" | "java" | "go": which interface; decides which     *)
(* arguments of the wrong shape can be expressed.                          *)
(***************************************************************************)
EXTENDS Blobs
CONSTANTS Bind, Rounds, From, Plans, Threads, Length
VARIABLES job, pool, prog, step
vars == <<job, pool, prog, step>>
Jobs == {<<r, p>> : r \in From..(From + Rounds - 1), p \in DOMAIN Plans}
SeedOf(j) == j[1] * 10000 + j[2] * 100
NB == 4
BadPoints == << "nocomp", "infflag", "infsign", "infjunk", "infnocomp", "zeros", "ones", "xgep", "xplusp", "xmax", "offcurve", "notsub", "order3", "torsion", "uncompressed" >>
HugeIndex == << "18446744073709551615", "9223372036854775808", "4294967296", "4294967297", "18446744073709551488", "9223372036854775807", "4294967423", "128", "129", "255", "256", "65536", "2147483648", "2147483775" >>
All == [k \in 1..K |-> k - 1]
HOrder(s, q) == LET h == TLCEval([i \in 1..Len(q) |-> <<R_(s, 700 + q[i]), q[i]>>]) o == SortSeq(h, LAMBDA x, y : x[1] < y[1]) IN TLCEval([i \in 1..Len(q) |-> o[i][2]])

(* ---- arguments ---- *)
B(i) == [b |-> i]
BP(i, pos, hex) == [b |-> i, patch |-> << <<pos, hex>> >>]
Com(i) == [com |-> i]
Prf(i, k) == [proof |-> <<i, k>>]
Cel(i, k) == [cell |-> <<i, k>>]
CelP(i, k, pos, hex) == [cell |-> <<i, k>>, patch |-> << <<pos, hex>> >>]
Mal(c, n) == [m |-> c \o ":" \o ToString(n)]
Wrong(n) == [len |-> n]                         \* a byte string of the wrong length
BlobLen == 32 * N
CellLen == 32 * M
C1(b, want) == [op |-> "commit", blob |-> b, want |-> want]
C2(b, want) == [op |-> "compute", blob |-> b, want |-> want]
V(cs, ix, ce, pf, want) == [op |-> "verify", coms |-> cs, idx |-> ix, cells |-> ce, proofs |-> pf, want |-> want]
R(ix, ce, want) == [op |-> "recover", idx |-> ix, cells |-> ce, want |-> want]
Str(q) == [i \in DOMAIN q |-> ToString(q[i])]
Pos(s, x) == LET c == Rn(s, x, 4) IN IF c = 0 THEN 0 ELSE IF c = 1 THEN N - 1 ELSE Rn(s, x + 1, N)
BlobEntries(s) ==
  [i \in 1..NB |-> C1(B(i), "ok")] \o [i \in 1..2 |-> C2(B(i), "ok")]
  \o << C1(BP(1, Pos(s, 1), FHexAlias(F0, 1)), "err"), C1(BP(2, Pos(s, 3), FHexAlias(F1, 2)), "err"), C2(BP(1, Pos(s, 5), FHexAlias(F1, 1)), "err"),
        C1(BP(1, Pos(s, 7), FHex(FNeg(F1))), "ok") >>
VerifyEntries(s) ==
  LET n == <<1, 2, 3, 4, 6, 9, 70>>[1 + Rn(s, 30, 7)]
      rows == TLCEval([i \in 1..n |-> <<1 + Rn(s, 100 + i, NB), Rn(s, 300 + i, K)>>])
      cs == [i \in 1..n |-> Com(rows[i][1])]  ix == [i \in 1..n |-> ToString(rows[i][2])]
      ce == [i \in 1..n |-> Cel(rows[i][1], rows[i][2])]  pf == [i \in 1..n |-> Prf(rows[i][1], rows[i][2])]
      p == 1 + Rn(s, 31, n)
      q == 1 + Rn(s, 32, M) - 1
      rest(x) == SubSeq(x, 1, n - 1)
      more(x) == Append(x, x[n])
      bad == BadPoints[1 + Rn(s, 33, Len(BadPoints))]  bad2 == BadPoints[1 + Rn(s, 34, Len(BadPoints))]
  IN << V(cs, ix, ce, pf, "ok"), V(<< >>, << >>, << >>, << >>, "ok"),
        V(cs, ix, ce, [pf EXCEPT ![p] = Prf(rows[p][1], (rows[p][2] + 1) % K)], "invalid"),
        V(cs, ix, [ce EXCEPT ![p] = CelP(rows[p][1], rows[p][2], q, FHex(Rf(s, 35)))], pf, "invalid"),
        V([cs EXCEPT ![p] = Com(1 + (rows[p][1] % NB))], ix, ce, pf, "invalid"),
        V(cs, [ix EXCEPT ![p] = ToString((rows[p][2] + 64) % K)], ce, pf, "invalid"),
        V([cs EXCEPT ![p] = Mal(bad, Rn(s, 36, 4))], ix, ce, pf, "err"), V(cs, ix, ce, [pf EXCEPT ![p] = Mal(bad2, Rn(s, 37, 4))], "err"),
        V(cs, ix, [ce EXCEPT ![p] = CelP(rows[p][1], rows[p][2], q, FHexAlias(F0, 1))], pf, "err"),
        V(cs, [ix EXCEPT ![p] = HugeIndex[1 + Rn(s, 38, Len(HugeIndex))]], ce, pf, "err"),
        V(rest(cs), ix, ce, pf, "err"), V(cs, rest(ix), ce, pf, "err"), V(cs, ix, rest(ce), pf, "err"), V(cs, ix, ce, rest(pf), "err"),
        V(more(cs), ix, ce, pf, "err"), V(cs, more(ix), ce, pf, "err"), V(cs, ix, more(ce), pf, "err"), V(cs, ix, ce, more(pf), "err"),
        V(<< >>, ix, ce, pf, "err"), V(cs, << >>, ce, pf, "err"), V(cs, ix, << >>, pf, "err"), V(cs, ix, ce, << >>, "err"),
        V(<<Com(1)>>, <<"0">>, <<Cel(1, 0)>>, <<Prf(1, 0)>>, "ok"), V(<<Com(1)>>, <<"127">>, <<Cel(1, 127)>>, <<Prf(1, 127)>>, "ok") >>
RecoverEntries(s) ==
  LET n == K \div 2 + Rn(s, 50, K \div 2 + 1)
      sub == TLCEval(SubSeq(HOrder(s, All), 1, n))
      half == TLCEval(SubSeq(HOrder(s + 1, All), 1, K \div 2))
      asc == TLCEval(SortSeq(half, LAMBDA x, y : x < y))
      ce(q, b) == [i \in DOMAIN q |-> Cel(b, q[i])]
      p == 1 + Rn(s, 51, K \div 2)
      b == 1 + Rn(s, 52, NB)
  IN << R(Str(sub), ce(sub, b), "ok"), R(Str(asc), ce(asc, 1), "ok"),
        R(Str(Tail(half)), Tail(ce(half, 1)), "err"), R(<< >>, << >>, "err"),
        R(Str(All), [ce(All, 1) EXCEPT ![p] = CelP(1, p - 1, Rn(s, 53, M), FHex(Rf(s, 54)))], "err"),
        R(Str(All), [ce(All, 1) EXCEPT ![p] = Cel(2, p - 1)], "err"),
        R(Str(half), Tail(ce(half, 1)), "err"), R(Str(Tail(half)), ce(half, 1), "err"), R(Str(half), Append(ce(half, 1), Cel(1, half[1])), "err"),
        R([Str(half) EXCEPT ![p] = HugeIndex[1 + Rn(s, 55, Len(HugeIndex))]], ce(half, 1), "err"),
        R(Str(Append(half, half[p])), ce(Append(half, half[p]), 1), "err"),
        R(Str(half), [ce(half, 1) EXCEPT ![p] = CelP(1, half[p], Rn(s, 56, M), FHexAlias(F1, 1))], "err"),
        R(Str(All \o <<0>>), ce(All \o <<0>>, 1), "err"), R(<< >>, ce(half, 1), "err"), R(Str(half), << >>, "err") >>
(* arguments of the wrong shape: the library cannot even be called, so the interface has to fail *)
ShapeEntries(s) ==
  LET half == TLCEval(SubSeq(HOrder(s + 1, All), 1, K \div 2))
      ce == [i \in DOMAIN half |-> Cel(1, half[i])]
      p == 1 + Rn(s, 61, K \div 2)
      bl == <<0, 1, BlobLen - 1, BlobLen + 1, 2 * BlobLen, BlobLen - 32>>  cl == <<0, CellLen - 1, CellLen + 1, 32, 2 * CellLen>>  pl == <<0, 47, 49, 96, 1>>
      bn(i) == Wrong(bl[1 + ((Rn(s, 62, 6) + i) % 6)])  cn(i) == Wrong(cl[1 + ((Rn(s, 63, 5) + i) % 5)])  pn(i) == Wrong(pl[1 + ((Rn(s, 64, 5) + i) % 5)])
      one(c, i, e, f) == V(<<c>>, <<i>>, <<e>>, <<f>>, "err")
      two(c, i, e, f) == V(<<Com(1), c>>, <<"3", i>>, <<Cel(1, 3), e>>, <<Prf(1, 3), f>>, "err")
      neg == <<"-1", "-128", "-9223372036854775808", "-127">>
      big == <<"18446744073709551616", "18446744073709551617", "36893488147419103232", "18446744073709551621", "340282366920938463463374607431768211456">>
      ng == neg[1 + Rn(s, 65, 4)]
      alias == IF Bind = "node" THEN big[1 + Rn(s, 66, 5)] ELSE ng
      nul == [nil |-> 1]
      common == << C1(bn(0), "err"), C1(bn(1), "err"), C1(bn(2), "err"), C1(bn(3), "err"), C1(bn(4), "err"), C1(bn(5), "err") >>
      rich == << C2(bn(0), "err"), C2(bn(1), "err"),
                 one(pn(0), "5", Cel(1, 5), Prf(1, 5)), one(Com(1), "5", cn(0), Prf(1, 5)), one(Com(1), "5", Cel(1, 5), pn(1)),
                 two(pn(2), "5", Cel(1, 5), Prf(1, 5)), two(Com(1), "5", cn(1), Prf(1, 5)), two(Com(1), "5", Cel(1, 5), pn(3)),
                 one(Com(1), ng, Cel(1, 5), Prf(1, 5)), two(Com(1), ng, Cel(1, 127), Prf(1, 127)),
                 R(Str(half), [ce EXCEPT ![p] = cn(2)], "err"), R(Str(half), [ce EXCEPT ![1] = cn(3)], "err"),
                 R([Str(half) EXCEPT ![p] = ng], ce, "err") >>
      wide == << one(Com(1), "18446744073709551621", Cel(1, 5), Prf(1, 5)), one(Com(1), "36893488147419103232", Cel(1, 0), Prf(1, 0)), two(Com(1), alias, Cel(1, 0), Prf(1, 0)),
                 R(<<"18446744073709551616">> \o [i \in 1..(K \div 2) |-> ToString(i)], <<Cel(1, 0)>> \o [i \in 1..(K \div 2) |-> Cel(1, i)], "err"),
                 R([Str(half) EXCEPT ![p] = alias], ce, "err") >>
      js(t) == [js |-> t]
      jt == << "undefined", "null", "number", "string", "array", "object", "u16", "arraybuffer", "dataview", "function", "detached", "bool", "bigint" >>
      jr(i) == js(jt[1 + ((Rn(s, 67, 13) + i) % 13)])
      types == [i \in 1..13 |-> C1(js(jt[i]), "err")] \o << C2(jr(0), "err"), C2(jr(5), "err"),
                 one(jr(1), "5", Cel(1, 5), Prf(1, 5)), one(Com(1), "5", jr(2), Prf(1, 5)), one(Com(1), "5", Cel(1, 5), jr(3)), two(Com(1), "5", jr(4), Prf(1, 5)), two(jr(6), "5", Cel(1, 5), Prf(1, 5)),
                 one(Com(1), "n:5", Cel(1, 5), Prf(1, 5)), one(Com(1), "s:5", Cel(1, 5), Prf(1, 5)), one(Com(1), "x:undefined", Cel(1, 5), Prf(1, 5)), two(Com(1), "x:null", Cel(1, 5), Prf(1, 5)),
                 two(Com(1), "x:object", Cel(1, 5), Prf(1, 5)),
                 [V(<< >>, <<"5">>, <<Cel(1, 5)>>, <<Prf(1, 5)>>, "err") EXCEPT !.coms = js("undefined")], [V(<<Com(1)>>, <<"5">>, <<Cel(1, 5)>>, <<Prf(1, 5)>>, "err") EXCEPT !.idx = js("null")],
                 [V(<<Com(1)>>, <<"5">>, <<Cel(1, 5)>>, <<Prf(1, 5)>>, "err") EXCEPT !.cells = js("number")], [V(<<Com(1)>>, <<"5">>, <<Cel(1, 5)>>, <<Prf(1, 5)>>, "err") EXCEPT !.proofs = js("string")],
                 R([Str(half) EXCEPT ![p] = "n:" \o ToString(half[p])], ce, "err"), R(Str(half), [ce EXCEPT ![p] = jr(7)], "err"), [R(Str(half), ce, "err") EXCEPT !.idx = js("bigint")], [R(Str(half), ce, "err") EXCEPT !.cells = js("undefined")] >>
      nulls == << C1(nul, "err"), C2(nul, "err"), one(nul, "5", Cel(1, 5), Prf(1, 5)), two(Com(1), "5", nul, Prf(1, 5)), two(Com(1), "5", Cel(1, 5), nul),
                  R(Str(half), [ce EXCEPT ![p] = nul], "err"),
                  [V(<< >>, <<"5">>, <<Cel(1, 5)>>, <<Prf(1, 5)>>, "err") EXCEPT !.coms = nul], [V(<<Com(1)>>, <<"5">>, <<Cel(1, 5)>>, <<Prf(1, 5)>>, "err") EXCEPT !.idx = nul],
                  [V(<<Com(1)>>, <<"5">>, <<Cel(1, 5)>>, <<Prf(1, 5)>>, "err") EXCEPT !.cells = nul], [V(<<Com(1)>>, <<"5">>, <<Cel(1, 5)>>, <<Prf(1, 5)>>, "err") EXCEPT !.proofs = nul],
                  [R(Str(half), ce, "err") EXCEPT !.idx = nul], [R(Str(half), ce, "err") EXCEPT !.cells = nul] >>
  IN CASE Bind = "c" -> << >> [] Bind = "go" -> common [] Bind = "node" -> common \o rich \o wide \o types [] Bind = "java" -> common \o rich \o nulls
Entries(s) == IF Bind = "go" THEN SelectSeq(BlobEntries(s), LAMBDA e : e.op = "commit") \o ShapeEntries(s) \o << C1([nil |-> 1], "err") >>
              ELSE BlobEntries(s) \o VerifyEntries(s) \o RecoverEntries(s) \o ShapeEntries(s)
Pool(j) ==
  LET s == SeedOf(j) IN
  [blobs |-> TLCEval([i \in 1..NB |-> FSeqHex(Member(IF i = 1 THEN "dense" ELSE Classes[1 + ((j[1] * 3 + i * 7 + j[2]) % Len(Classes))], s + i).blob)]), entries |-> TLCEval(Entries(s))]

(* ---- programs ---- *)
NSh == 3
Cfg(s, x) == << Rn(s, x, 3) = 0, <<1, 2, 0, 4, 1, 3>>[1 + Rn(s, x + 1, 6)] >>          \* precomputation, threads
AnyEntry(n, s, x) == 1 + Rn(s, x, n)
(* every entry once per pass, then arbitrary calls, with contexts coming and going; "keep": the message is released only at the end of the program *)
Walk(n, s, th) ==
  LET b == th * 100000
      keep(i) == IF Rn(s, b + 10 * i + 2, 3) = 0 THEN "keep" ELSE IF Rn(s, b + 10 * i + 2, 3) = 1 THEN "later" ELSE "now"
      item(i) == << <<"call", 1 + Rn(s, b + 10 * i, NSh), AnyEntry(n, s, b + 10 * i + 1), keep(i)>> >>
      life(i) == LET own == 100 * th + i IN << <<"new", own>> \o Cfg(s, b + 10 * i + 5) >> \o << <<"call", own, AnyEntry(n, s, b + 10 * i + 7), keep(i)>> >> \o item(i)
                   \o (IF Bind = "java" THEN << <<"close", own>>, <<"call", own, AnyEntry(n, s, b + 10 * i + 3), keep(i)>> >> ELSE << >>) \o << <<"free", own>> >>
  IN TLCEval(FoldLeft(LAMBDA acc, i : acc \o (IF Rn(s, b + 10 * i + 9, 10) = 0 THEN life(i) ELSE item(i)) \o (IF Rn(s, b + 10 * i + 8, 6) = 0 THEN << <<"freelater">> >> ELSE << >>), << >>, [i \in 1..Length |-> i]))
Sweep(n, s) == TLCEval([i \in 1..n |-> <<"call", 1 + (i % NSh), i, IF i % 3 = 0 THEN "keep" ELSE IF i % 3 = 1 THEN "later" ELSE "now">>])
Mixed(n, s) == LET o == HOrder(s + 5, [i \in 1..n |-> i]) IN TLCEval([i \in 1..(2 * n) |-> <<"call", 1 + Rn(s, 7000 + i, NSh), IF i <= n THEN o[i] ELSE AnyEntry(n, s, 8000 + i), IF Rn(s, 9000 + i, 2) = 0 THEN "later" ELSE "now">>])
Programs(j, n) ==
  LET s == SeedOf(j) IN
  CASE Plans[j[2]] = "sweep" -> << Sweep(n, s) >>
    [] Plans[j[2]] = "mixed" -> << Mixed(n, s) >>
    [] OTHER -> TLCEval([th \in 1..Threads |-> Walk(n, s, th)])

Init == job \in Jobs /\ pool = << >> /\ prog = << >> /\ step = 0
MakePool == step = 0 /\ step' = 1 /\ UNCHANGED <<job, prog>> /\ \E j \in {job} : pool' = TLCEval(Pool(j))
MakePrograms == step = 1 /\ step' = 2 /\ UNCHANGED <<job, pool>> /\ \E j \in {job}, n \in {Len(pool.entries)} : prog' = TLCEval(Programs(j, n))
Finish == step = 2 /\ step' = 3 /\ UNCHANGED <<job, pool, prog>>
  /\ \E j \in {job} : Emit("cases.ndjson", [kind |-> "bind", bind |-> Bind, id |-> ToString(SeedOf(j)), plan |-> Plans[j[2]], blobs |-> pool.blobs, entries |-> pool.entries,
       shared |-> TLCEval([sl \in 1..NSh |-> Cfg(SeedOf(j), 20 + 2 * sl)]), progs |-> prog])
Next == MakePool \/ MakePrograms \/ Finish
Spec == Init /\ [][Next]_vars
View == <<job, step>>
==============================================================================
