------------------------------ MODULE Field ------------------------------
(***************************************************************************)
(* A small prime field, used when TLC checks the specification             *)
(* exhaustively.  Same operators as bls/Field.tla.  P is prime and Gen a   *)
(* generator of its multiplicative group.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS P, Gen

F0 == 0
F1 == 1
FInt(n) == n % P
FAdd(a, b) == (a + b) % P
FSub(a, b) == (a - b) % P
FMul(a, b) == (a * b) % P
FNeg(a) == (0 - a) % P
RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN 1
              ELSE LET h == FPow(a, n \div 2) IN
                   IF n % 2 = 0 THEN FMul(h, h) ELSE FMul(a, FMul(h, h))
FInv(a) == FPow(a, P - 2)
FRoot(n) == FPow(Gen, (P - 1) \div n)
Fld == 0..(P-1)
FRand(s, i) == (s * 31 + i * 17 + ((i * i) % 1009) + 5) % P
FHex(a) == ToString(a)
FSeqHex(s) == ToString(s)
FHexAlias(a, j) == ToString(a + j * P)
FSwap(a) == a
ASSUME FPow(Gen, P - 1) = 1 /\ (P = 2 \/ FPow(Gen, (P - 1) \div 2) # 1)
==========================================================================
