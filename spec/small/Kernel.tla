------------------------------ MODULE Kernel ------------------------------
(* Small field: the definitions themselves. *)
EXTENDS KernelDefs

PEval(p, x) == DefPEval(p, x)
PowersD(x, n) == DefPowers(x, n)
FFT(p, n) == DefFFT(p, n)
IFFT(v) == DefIFFT(v)
ScalePowers(v, g) == DefScalePowers(v, g)
BitRev(s) == DefBitRev(s)
RemXmC(p, m, c) == DefRemXmC(p, m, c)
Dot(a, b) == DefDot(a, b)
PMul(p, q) == DefPMul(p, q)
RandSeq(s, base, n) == DefRandSeq(s, base, n)
===========================================================================
