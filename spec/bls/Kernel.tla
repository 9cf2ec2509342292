------------------------------ MODULE Kernel ------------------------------
(* Real field: evaluated by kzg/Overrides.java; the bodies are the definitions. *)
EXTENDS KernelDefs

JPEval(p, x) == DefPEval(p, x)
PEval(p, x) == JPEval(p, x)
JPowers(x, n) == DefPowers(x, n)
PowersD(x, n) == JPowers(x, n)
JFFT(p, n) == DefFFT(p, n)
FFT(p, n) == JFFT(p, n)
JIFFT(v) == DefIFFT(v)
IFFT(v) == JIFFT(v)
JScalePowers(v, g) == DefScalePowers(v, g)
ScalePowers(v, g) == JScalePowers(v, g)
JBitRev(s) == DefBitRev(s)
BitRev(s) == JBitRev(s)
JRemXmC(p, m, c) == DefRemXmC(p, m, c)
RemXmC(p, m, c) == JRemXmC(p, m, c)
JDot(a, b) == DefDot(a, b)
Dot(a, b) == JDot(a, b)
JPMul(p, q) == DefPMul(p, q)
PMul(p, q) == JPMul(p, q)
JRandSeq(s, base, n) == DefRandSeq(s, base, n)
RandSeq(s, base, n) == JRandSeq(s, base, n)
===========================================================================
