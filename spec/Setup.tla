-------------------------------- MODULE Setup --------------------------------
(***************************************************************************)
(* Loading a trusted setup, one point at a time: parse, decode and check   *)
(* the first list, then the second one, then count.  Design "every" is     *)
(* right; the others overlook something and are refuted:                   *)
(*   "firsts"   checks the subgroup of the points it counts as needed only *)
(*   "noG2"     does not check the subgroup in the second list             *)
(*   "curve"    takes a point of the curve for a point of the subgroup     *)
(*   "lenient"  skips points it cannot decode                              *)
(*   "count1"   does not count the first list                              *)
(*   "count2"   does not count the second list                             *)
(*   "sum"      tests the subgroup once, for the sum of a list             *)
(*   "strict"   tests the subgroup in the unchecked loader too             *)
(***************************************************************************)
EXTENDS SetupDefs, FiniteSets, TLC
CONSTANTS Design, Need1, Need2, Max1, Max2
VARIABLES in, phase, at, got
vars == <<in, phase, at, got>>
Seqs(n) == UNION {[1..k -> PointKinds] : k \in 0..n}
Inputs == [mode : {"checked", "unchecked"}, text : BOOLEAN, g1 : Seqs(Max1), g2 : Seqs(Max2)]
Init == in \in Inputs /\ phase = "parse" /\ at = 1 /\ got = <<0, 0>>
Parse == phase = "parse" /\ phase' = (IF in.text THEN "g1" ELSE "refused") /\ UNCHANGED <<in, at, got>>
OutsideSum(l) == Cardinality({i \in DOMAIN l : l[i] = "outside"}) - Cardinality({i \in DOMAIN l : l[i] = "opposite"})
List == IF phase = "g1" THEN in.g1 ELSE in.g2
Skips == CASE Design = "firsts" -> at > (IF phase = "g1" THEN Need1 ELSE Need2) [] Design = "noG2" -> phase = "g2" [] Design = "curve" -> TRUE [] OTHER -> FALSE
Passes(k) == CASE k = "good" -> TRUE [] k \in {"outside", "opposite"} -> Design = "sum" \/ (in.mode = "unchecked" /\ Design # "strict") \/ Skips [] OTHER -> FALSE
Decode ==
  /\ phase \in {"g1", "g2"} /\ at <= Len(List) /\ UNCHANGED in
  /\ IF Passes(List[at])
     THEN phase' = phase /\ at' = at + 1 /\ got' = IF phase = "g1" THEN <<got[1] + 1, got[2]>> ELSE <<got[1], got[2] + 1>>
     ELSE IF Design = "lenient" THEN phase' = phase /\ at' = at + 1 /\ UNCHANGED got ELSE phase' = "refused" /\ UNCHANGED <<at, got>>
NextList == phase = "g1" /\ at > Len(in.g1) /\ phase' = "g2" /\ at' = 1 /\ UNCHANGED <<in, got>>
Count == /\ phase = "g2" /\ at > Len(in.g2) /\ UNCHANGED <<in, at, got>>
         /\ phase' = IF (got[1] >= Need1 \/ Design = "count1") /\ (got[2] >= Need2 \/ Design = "count2")
                        /\ (Design = "sum" /\ in.mode = "checked" => OutsideSum(in.g1) = 0 /\ OutsideSum(in.g2) = 0) THEN "loaded" ELSE "refused"
Next == Parse \/ Decode \/ NextList \/ Count
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OnlyAcceptable == phase = "loaded" => Acceptable(in.mode, in.text, in.g1, in.g2, Need1, Need2)
AllAcceptable == phase = "refused" => ~Acceptable(in.mode, in.text, in.g1, in.g2, Need1, Need2)
Answers == <>(phase \in {"loaded", "refused"})
=============================================================================
