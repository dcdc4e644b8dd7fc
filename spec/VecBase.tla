------------------------------ MODULE VecBase ------------------------------
(* Shapes of multi-dimensional vectors, stored contiguously with the LAST  *)
(* index varying fastest.  A vector is [d |-> dims, v |-> data], dims a    *)
(* sequence of naturals (axis 1 is the first index), data a sequence with  *)
(* Prod(dims) elements; positions are 0-based.                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

NPOS == 2000000000
VNAN == 2000000001
VINF == 2000000002
VNINF == 2000000003
VFRAC == 2000000004
VBIG == 2000000005

Prod(d) == FoldLeft(LAMBDA a, b : a * b, 1, d)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Stride(d, k) == Prod(SubSeq(d, k + 1, Len(d)))

\* row-major position of a (0-based) multi-index
Flat(d, ix) == FoldLeft(LAMBDA a, k : a * d[k] + ix[k], 0, [k \in 1..Len(d) |-> k])
\* inverse
Unflat(d, p) == [k \in 1..Len(d) |-> (p \div Stride(d, k)) % d[k]]

Iota1(n) == [i \in 1..n |-> i]
Iota(n) == [i \in 1..n |-> i - 1]
AllIdx(d) == [p \in 1..Prod(d) |-> Unflat(d, p - 1)]
WellShaped(x) == Len(x.v) = Prod(x.d)
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Range1(s) == {s[i] : i \in 1..Len(s)}
\* indices (1-based, increasing) satisfying a predicate
Indices(n, P(_)) == SetToSortSeq({i \in 1..n : P(i)}, LAMBDA a, b : a < b)
SwapAt(s, i, x) == [s EXCEPT ![i] = x]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
IsPermOf(a, b) == Len(a) = Len(b) /\ \A x \in Range1(a) \cup Range1(b) : Count(a, x) = Count(b, x)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Repeat(x, n) == [i \in 1..n |-> x]
=============================================================================
