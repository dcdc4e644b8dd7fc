------------------------------- MODULE OrderMC -------------------------------
(* All small vectors of values.                                              *)
EXTENDS Order
CONSTANTS N, Vals
VARIABLES v, w, x
Seqs == UNION {[1..n -> Vals] : n \in 0..N}
Init == v \in Seqs /\ w \in Seqs /\ x \in Vals
Spec == Init /\ [][FALSE]_<<v, w, x>>
\* there is exactly one stable sorting permutation
OneSort == Cardinality({s \in [1..Len(v) -> 0..(Len(v) - 1)] : IsSort(v, s, Lt)}) = 1
SortedV == SortSeq(v, Lt)
Unique == /\ Len(UIds(v)) = Cardinality(Range1(v)) /\ \A y \in Range1(v) : \E i \in 1..Len(UIds(v)) : v[UIds(v)[i] + 1] = y
          /\ Sorted(Values(v), Lt)
MatchSound == \A k \in 1..Len(MatchR(v, w)) : Eq(v[MatchR(v, w)[k] + 1], w[MatchR2(v, w)[k] + 1])
MatchComplete == \A i \in 1..Len(v) : (AnyOf(v, w)[i] = 1) = ((i - 1) \in Range1(MatchR(v, w)))
Bounds == LET s == SortedV l == Lower(s, x) u == Upper(s, x) IN
    /\ (l # NPOS => Key(s[l + 1]) <= Key(x)) /\ (u # NPOS => Key(s[u + 1]) > Key(x))
    /\ (l # NPOS /\ u # NPOS) => u = l + 1
    /\ Len(s) > 0 => (l # NPOS \/ u # NPOS)
Equal == LET s == SortedV r == EqRange(s, x) IN
    IF x \in Range1(v) THEN {i \in 1..Len(s) : s[i] = x} = (r[1] + 1)..(r[2] + 1) ELSE r = <<NPOS, NPOS>>
=============================================================================
