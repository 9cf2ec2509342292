------------------------------ MODULE SetupDefs ------------------------------
(***************************************************************************)
(* What a trusted setup has to be.  A setup is offered as a text with      *)
(* lists of points: g1 (powers of the secret in the first group) and g2    *)
(* (in the second one).  Every point is one of                             *)
(*   "good"       a point of the subgroup, canonically encoded             *)
(*   "outside"    a point of the curve that is not in the subgroup         *)
(*   "opposite"   one whose part outside the subgroup cancels "outside"    *)
(*   "offcurve"   an encoding of no point of the curve                     *)
(*   "malformed"  not an encoding (length, flags, digits, coordinates)     *)
(***************************************************************************)
EXTENDS Integers, Sequences
PointKinds == {"good", "outside", "opposite", "offcurve", "malformed"}
Decodes(mode, k) == k = "good" \/ (mode = "unchecked" /\ k \in {"outside", "opposite"})
Acceptable(mode, textOk, g1, g2, need1, need2) ==
  /\ textOk /\ Len(g1) >= need1 /\ Len(g2) >= need2
  /\ \A i \in DOMAIN g1 : Decodes(mode, g1[i])
  /\ \A i \in DOMAIN g2 : Decodes(mode, g2[i])
==============================================================================
