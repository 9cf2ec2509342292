------------------------------ MODULE Field ------------------------------
(***************************************************************************)
(* The scalar field of BLS12-381, used when the specification is evaluated *)
(* for conformance with the implementation.  It offers exactly the same    *)
(* operators as small/Field.tla.  The Bls* operators are definitions over  *)
(* the mathematical integers mod r; TLC's integers have 32 bits, so        *)
(* kzg/Overrides.java evaluates them on arbitrary precision integers.      *)
(* A field element is an atomic TLC value.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL R == CHOOSE r \in Nat : TRUE  \* 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
BlsInt(n)     == n % R
BlsAdd(a, b)  == (a + b) % R
BlsSub(a, b)  == (a - b) % R
BlsMul(a, b)  == (a * b) % R
BlsPow(a, n)  == (a ^ n) % R
BlsInv(a)     == CHOOSE b \in 0..(R-1) : (a * b) % R = 1
BlsRoot(n)    == (7 ^ ((R - 1) \div n)) % R
BlsHex(a)     == CHOOSE s \in STRING : TRUE   \* 64 lower-case hexadecimal digits, big-endian
BlsFromHex(s) == CHOOSE a \in 0..(R-1) : BlsHex(a) = s
BlsRand(s, i) == CHOOSE a \in 0..(R-1) : TRUE \* a fixed pseudo-random function of (s, i)
BlsSeqHex(s)  == CHOOSE h \in STRING : TRUE   \* concatenation of BlsHex of the elements
BlsHexAlias(a, j) == CHOOSE h \in STRING : TRUE \* 64 digits of the integer a + j * R, "" if it exceeds 256 bits
BlsSwap(a) == CHOOSE x \in 0..(R-1) : TRUE     \* byte order reversed, if canonical

F0 == BlsInt(0)
F1 == BlsInt(1)
FInt(n) == BlsInt(n)
FAdd(a, b) == BlsAdd(a, b)
FSub(a, b) == BlsSub(a, b)
FMul(a, b) == BlsMul(a, b)
FPow(a, n) == BlsPow(a, n)
FInv(a) == BlsInv(a)
FRoot(n) == BlsRoot(n)
FRand(s, i) == BlsRand(s, i)
FHex(a) == BlsHex(a)
FFromHex(s) == BlsFromHex(s)
FSeqHex(s) == BlsSeqHex(s)
FHexAlias(a, j) == BlsHexAlias(a, j)
FSwap(a) == BlsSwap(a)
FNeg(a) == BlsSub(F0, a)
==========================================================================
