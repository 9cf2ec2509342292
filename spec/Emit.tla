------------------------------- MODULE Emit -------------------------------
(* Output of generated behaviours and the seed of this run (kzg/Overrides.java). *)
EXTENDS Integers
Emit(file, value) == TRUE       \* side effect: append value as a JSON line to file
SeedEnv == 1                    \* the integer in VERIF_SEED
Hash31(a, b) == 0               \* a fixed pseudo-random function into 0 .. 2^31-1
Once(key, val) == val          \* a constant expression evaluated only once per key
Pick(seed, i, n) == Hash31(seed, i) % n    \* pseudo-random number in 0 .. n-1
===========================================================================
