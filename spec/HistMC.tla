------------------------------- MODULE HistMC -------------------------------
EXTENDS Hist
CONSTANTS N, Vals, E
VARIABLES v, e
Incr(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Init == /\ v \in UNION {[1..n -> Vals] : n \in 0..N}
        /\ e \in {s \in UNION {[1..n -> 0..E] : n \in 2..4} : Incr(s)}
Spec == Init /\ [][FALSE]_<<v, e>>
Bins == [k \in 1..(Len(e) - 1) |-> <<e[k], e[k + 1]>>]
\* contiguous bins count every value of the covered range exactly once
Partition == SumSeq(Hist1(v, Bins)) = Cardinality({i \in 1..Len(v) : InBin(v[i], <<e[1], e[Len(e)]>>)})
OpenPartition == \A i \in 1..Len(v) : (v[i] # VNAN /\ Len(Bins) > 1) => Cardinality({k \in 1..Len(Bins) : InOpen(v[i], Bins, k)}) = 1
Weights == HistW(v, [i \in 1..Len(v) |-> 1], Bins) = Hist1(v, Bins)
TwoD == Hist2(v, v, Bins, Bins) = [p \in 1..(Len(Bins) * Len(Bins)) |->
    IF (p - 1) \div Len(Bins) = (p - 1) % Len(Bins) THEN Hist1(v, Bins)[((p - 1) % Len(Bins)) + 1] ELSE 0]
Ends == Len(v) > 0 /\ (\A i \in 1..Len(v) : v[i] # VNAN) => Cumul(v)[Len(v)] = CumulRev(v)[1]
=============================================================================
