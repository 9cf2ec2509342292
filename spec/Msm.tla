-------------------------------- MODULE Msm --------------------------------
(***************************************************************************)
(* Multi-scalar multiplication with precomputed tables, as an algorithm:   *)
(* signed (Booth) recoding in windows of W bits, one bucket of table       *)
(* points per window, all buckets added pairwise in rounds that share one  *)
(* inversion, then the windows combined by doubling.                       *)
(*                                                                         *)
(* Points are discrete logarithms mod P.  The pairwise affine addition has *)
(* no result for p + (-p) or when an operand is the identity; `defined`    *)
(* records that it never happened.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS P,          \* group order (prime)
          NB,         \* scalars are below 2^NB
          T,          \* threshold below which batching stops
          Widths, Points, MaxScalars, Scalars
VARIABLES w, pts, scal, buckets, sums, defined, pc, result
vars == <<w, pts, scal, buckets, sums, defined, pc, result>>

Windows(width) == NB \div width + 1
(* window i of s: width + 1 bits, overlapping the previous window by one *)
Slice(s, i, width) == ((2 * s) \div (2 ^ (i * width))) % (2 ^ (width + 1))
Digit(s, i, width) == LET t == Slice(s, i, width) m == (t + 1) \div 2 IN IF t < 2 ^ width THEN m ELSE m - 2 ^ width
Recoded(s, width) == FoldLeft(LAMBDA acc, i : acc + Digit(s, i - 1, width) * 2 ^ ((i - 1) * width), 0, [i \in 1..Windows(width) |-> i])
(* what the recoding owes the algorithm *)
ASSUME RecodingExact == \A width \in Widths : \A s \in 0..(2 ^ NB - 1) :
  /\ Recoded(s, width) = s
  /\ \A i \in 0..(Windows(width) - 1) : LET d == Digit(s, i, width) IN d <= 2 ^ (width - 1) /\ -d <= 2 ^ (width - 1)

Mod(x) == x % P
Table(p, width) == TLCEval([m \in 1..(2 ^ (width - 1)) |-> Mod(m * p)])
Entry(p, d, width) == IF d > 0 THEN Table(p, width)[d] ELSE Mod(0 - Table(p, width)[0 - d])
Bucket(i) == FoldLeft(LAMBDA acc, j : LET d == Digit(scal[j], i, w) IN IF d = 0 THEN acc ELSE Append(acc, Entry(pts[j], d, w)), << >>, [j \in 1..Len(scal) |-> j])
Half(s) == Len(s) \div 2
Work(bs) == FoldLeft(LAMBDA acc, b : acc + Half(b), 0, bs)
SumOf(s) == FoldLeft(LAMBDA acc, x : Mod(acc + x), 0, s)

Init == /\ w \in Widths /\ pts \in Points /\ scal \in UNION {[1..n -> Scalars] : n \in 0..MaxScalars} /\ Len(scal) <= Len(pts)
        /\ buckets = << >> /\ sums = << >> /\ defined = TRUE /\ pc = "recode" /\ result = 0
Recode == pc = "recode" /\ pc' = "add" /\ UNCHANGED <<w, pts, scal, defined, result>>
  /\ buckets' = TLCEval([i \in 1..Windows(w) |-> Bucket(i - 1)]) /\ sums' = [i \in 1..Windows(w) |-> 0]
Even(b) == SubSeq(b, 1, 2 * Half(b))
Pair(b) == TLCEval([k \in 1..Half(b) |-> Mod(b[2 * k - 1] + b[2 * k])])
PairDefined(b) == \A k \in 1..Half(b) : b[2 * k - 1] # 0 /\ b[2 * k] # 0 /\ Mod(b[2 * k - 1] + b[2 * k]) # 0
Round == pc = "add" /\ Work(buckets) > T /\ UNCHANGED <<w, pts, scal, pc, result>>
  /\ sums' = TLCEval([i \in DOMAIN sums |-> IF Len(buckets[i]) % 2 = 1 THEN Mod(sums[i] + Last(buckets[i])) ELSE sums[i]])
  /\ defined' = (defined /\ \A i \in DOMAIN buckets : PairDefined(Even(buckets[i])))
  /\ buckets' = TLCEval([i \in DOMAIN buckets |-> Pair(Even(buckets[i]))])
Rest == pc = "add" /\ Work(buckets) <= T /\ pc' = "combine" /\ UNCHANGED <<w, pts, scal, defined, result>>
  /\ sums' = TLCEval([i \in DOMAIN sums |-> Mod(sums[i] + SumOf(buckets[i]))]) /\ buckets' = [i \in DOMAIN buckets |-> << >>]
Combine == pc = "combine" /\ pc' = "done" /\ UNCHANGED <<w, pts, scal, buckets, sums, defined>>
  /\ result' = FoldRight(LAMBDA x, acc : Mod(acc * (2 ^ w) + x), sums, 0)
Next == Recode \/ Round \/ Rest \/ Combine
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Expected == FoldLeft(LAMBDA acc, j : Mod(acc + scal[j] * pts[j]), 0, [j \in 1..Len(scal) |-> j])
(* the paths agree with the sum of products whenever every pairwise addition was defined *)
Correct == (pc = "done" /\ defined) => result = Expected
(* each round keeps the total of every window *)
WindowTotals == pc = "add" => \A i \in DOMAIN buckets : Mod(sums[i] + SumOf(buckets[i])) = SumOf(Bucket(i - 1))
Terminates == <>(pc = "done")
=============================================================================
