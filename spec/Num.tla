-------------------------------- MODULE Num --------------------------------
(* Integers, fixed-point numbers (thousandths) and small vectors.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

(* names of the clauses of a list of <<name, holds>> that fail *)
Failing(clauses) == { ToString(clauses[i][1]) : i \in { j \in DOMAIN clauses : ~ clauses[j][2] } }

Abs(x) == IF x < 0 THEN -x ELSE x
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b

S == 1000                                  \* scale of fixed-point values
(* num/den in thousandths; TLC integers have 32 bits, so divide first.       *)
FixDiv(num, den) ==
  LET n == IF den < 0 THEN -num ELSE num
      d == Abs(den)
      q == n \div d
      r == n % d
  IN  q * S + (IF r < 2000000 THEN (r * S) \div d
               ELSE ((r \div 64) * S) \div (d \div 64))
Near(a, b, tol) == Abs(a - b) <= tol
(* Tolerance for values computed in floating point and rounded to 1/1000.    *)
Tol == 2
(* Tolerance relative to the size of a value, for products of rounded values *)
RTol(v) == 3 + Abs(v) \div 2000
Close(a, b) == Near(a, b, RTol(b))

(* (a*b - c*d)/2 of values in thousandths, in thousandths; |values| < 46000    *)
FixMul2(a, b, c, d) == (a * b) \div (2 * S) - (c * d) \div (2 * S)
At(s, i) == s[i + 1]                       \* identifiers count from zero
Ids(n) == 0 .. (n - 1)
Has(s, x) == \E i \in DOMAIN s : s[i] = x
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
IsSetOf(s, set) == NoDup(s) /\ ToSet(s) = set   \* a list naming a set
PosOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
Sum(s) == SumSeq(s, 1)
SumOver(set, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, set)

VAdd(a, b) == [i \in 1 .. Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1 .. Len(a) |-> a[i] - b[i]]
VScale(k, a) == [i \in 1 .. Len(a) |-> k * a[i]]
VNeg(a) == [i \in 1 .. Len(a) |-> -a[i]]
VZero(d) == [i \in 1 .. d |-> 0]
Dot(a, b) == Sum([i \in 1 .. Len(a) |-> a[i] * b[i]])
Cross3(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
Det3(a, b, c) == Dot(Cross3(a, b), c)
VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Near(a[i], b[i], tol)
VClose(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Close(a[i], b[i])
VSum(s, d) == FoldLeft(LAMBDA acc, v : VAdd(acc, v), VZero(d), s)
VSumOver(set, f(_), d) == FoldSet(LAMBDA x, acc : VAdd(f(x), acc), VZero(d), set)

(* Deterministic pseudo-random numbers below 2^16, by position and seed.     *)
Mix(x) == LET a == (x * 25173 + 13849) % 65536
              b == (a \div 256) + (a % 256) * 256
          IN  (b * 17717 + 3037) % 65536
Rnd(seed, i) == Mix((Mix((Mix(seed % 65536) + i) % 65536) + 4099 * (i % 13) + (i \div 65536) * 77 + (seed \div 65536) * 31) % 65536)
Below(seed, i, n) == (Rnd(seed, i) \div 7) % n
Pick(seed, i, s) == s[Below(seed, i, Len(s)) + 1]
(* a permutation of 0..n-1: the value at position i+1 is the image of i      *)
Shuffled(seed, n) ==
  SetToSortSeq(Ids(n), LAMBDA a, b : LET x == Rnd(seed, a) y == Rnd(seed, b) IN x < y \/ (x = y /\ a < b))
InversePerm(p) == [i \in 1 .. Len(p) |-> PosOf(p, i - 1) - 1]
Perm(seed, n) == InversePerm(Shuffled(seed, n))
RotSeq(s, k) == [i \in 1 .. Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]]
Repeat(x, n) == [i \in 1 .. n |-> x]
=============================================================================
