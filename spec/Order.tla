-------------------------------- MODULE Order --------------------------------
(* Order and equality of values.  NaN sorts after everything and equals      *)
(* nothing.                                                                  *)
EXTENDS VecBase
Key(x) == IF x = VNAN THEN 2100000000 ELSE IF x = VNINF THEN -2100000000 ELSE x
Lt(a, b) == Key(a) < Key(b)
Eq(a, b) == a = b /\ a # VNAN
\* the stable sorting permutation (0-based), by definition
IsSort(v, s, lt(_, _)) ==
    /\ Len(s) = Len(v) /\ {s[i] : i \in 1..Len(s)} = 0..(Len(v) - 1)
    /\ \A i \in 1..(Len(s) - 1) : ~lt(v[s[i + 1] + 1], v[s[i] + 1])
                                /\ (~lt(v[s[i] + 1], v[s[i + 1] + 1]) => s[i] < s[i + 1])
Sorted(v, lt(_, _)) == \A i \in 1..(Len(v) - 1) : ~lt(v[i + 1], v[i])
Values(v) == SetToSortSeq(Range1(v), Lt)
FirstAt(v, x) == (CHOOSE i \in 1..Len(v) : v[i] = x /\ \A j \in 1..(i - 1) : v[j] # x) - 1
UIds(v) == LET u == Values(v) IN [i \in 1..Len(u) |-> FirstAt(v, u[i])]
\* pairs (i, j), i increasing, j the first position of w equal to v[i]
Matched(v, w) == Indices(Len(v), LAMBDA i : \E j \in 1..Len(w) : Eq(v[i], w[j]))
MatchR(v, w) == [k \in 1..Len(Matched(v, w)) |-> Matched(v, w)[k] - 1]
MatchR2(v, w) == [k \in 1..Len(Matched(v, w)) |-> FirstAt(w, v[Matched(v, w)[k]])]
AnyOf(v, w) == [i \in 1..Len(v) |-> IF \E j \in 1..Len(w) : Eq(v[i], w[j]) THEN 1 ELSE 0]
\* multiset operations
MultiSorted(v, w, cnt(_, _), r) ==
    /\ Sorted(r, Lt)
    /\ \A x \in Range1(v) \cup Range1(w) : Count(r, x) = cnt(Count(v, x), Count(w, x))
    /\ Range1(r) \subseteq Range1(v) \cup Range1(w)
\* on a sorted vector
NLe(v, x) == Cardinality({i \in 1..Len(v) : Key(v[i]) <= Key(x)})
NLt(v, x) == Cardinality({i \in 1..Len(v) : Key(v[i]) < Key(x)})
Lower(v, x) == IF NLe(v, x) = 0 THEN NPOS ELSE NLe(v, x) - 1
Upper(v, x) == IF NLe(v, x) = Len(v) THEN NPOS ELSE NLe(v, x)
EqRange(v, x) == IF NLe(v, x) = NLt(v, x) THEN <<NPOS, NPOS>> ELSE <<NLt(v, x), NLe(v, x) - 1>>
=============================================================================
