----------------------------- MODULE KernelCheck -----------------------------
(* The Java evaluation of the kernel equals the definitions, on the sizes the generators use and on edge cases. *)
EXTENDS Kernel, Emit
CONSTANTS Rounds
VARIABLES i, done
Vec(s, n) == DefRandSeq(Hash31(SeedEnv, s), 0, n)
Sparse(s, n) == TLCEval([k \in 1..n |-> IF Hash31(s, k) % 3 = 0 THEN FRand(s, k) ELSE F0])
Lens == <<0, 1, 2, 3, 5, 8, 17, 64>>
Agree(s) ==
  LET l == Lens[1 + (s % Len(Lens))] v == Vec(s, l) w == Sparse(s, l) x == FRand(s, 77) n == 2 ^ (s % 9)
      u == Vec(s + 1, n)  m == 2 ^ (s % 4)
  IN /\ PEval(v, x) = DefPEval(v, x) /\ PEval(w, F0) = DefPEval(w, F0)
     /\ PowersD(x, l) = DefPowers(x, l)
     /\ (l <= n => FFT(v, n) = DefFFT(v, n))
     /\ FFT(u, n) = DefFFT(u, n) /\ IFFT(u) = DefIFFT(u)
     /\ ScalePowers(v, x) = DefScalePowers(v, x)
     /\ BitRev(u) = DefBitRev(u)
     /\ RemXmC(v, m, x) = DefRemXmC(v, m, x)
     /\ Dot(v, w) = DefDot(v, w)
     /\ PMul(v, w) = DefPMul(v, w)
     /\ RandSeq(s, 5, l) = DefRandSeq(s, 5, l)
Init == i \in 1..Rounds /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
KernelsAgree == done => Agree(i)
==============================================================================
