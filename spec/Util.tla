-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by every module of the specification. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NUMMAX == 2147483647                       \* largest SCOTCH_Num of this build (32 bit)

SumSeq(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s, z) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, z, s)
MinSeq(s, z) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, z, s)
Abs(x)     == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* Integer overflow safe test that the sum of non-negative numbers fits in a Num
AddSat(a, x) == IF a < 0 \/ x < 0 \/ x > NUMMAX - a THEN -1 ELSE a + x
SumFits(s) == FoldLeft(AddSat, 0, s) >= 0
SumFits2(ss) == FoldLeft(LAMBDA a, s : FoldLeft(AddSat, a, s), 0, ss) >= 0

Has(r, f) == f \in DOMAIN r

AllInt(s, lo, hi) == \A i \in 1 .. Len(s) : s[i] >= lo /\ s[i] <= hi

IsPermOf(s, lo, n) ==                      \* s is a permutation of lo .. lo+n-1
   /\ Len(s) = n
   /\ {s[i] : i \in 1 .. n} = lo .. (lo + n - 1)

Flat(ss) == FlattenSeq(ss)

\* Prefix sums: P[1] = 0, P[i+1] = P[i] + s[i]
Prefix(s) == FoldLeft(LAMBDA a, b : Append(a, a[Len(a)] + b), <<0>>, s)

\* a / b in thousandths, rounded down
RECURSIVE Digits(_, _, _)
Digits(r, d, k) == IF k = 0 THEN 0 ELSE ((10 * r) \div d) * (10 ^ (k - 1)) + Digits((10 * r) % d, d, k - 1)
RECURSIVE Ratio(_, _)
Ratio(a, b) == IF b > 200000000 THEN Ratio(a \div 16, b \div 16) ELSE 1000 * (a \div b) + Digits(a % b, b, 3)


\* First failing clause of a chain (lazy: later operands are only evaluated if
\* the earlier ones are "ok")
OK == "ok"
FirstOf(a, b) == IF a # OK THEN a ELSE b
=============================================================================
