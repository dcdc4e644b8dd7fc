------------------------------ MODULE ReduceMC ------------------------------
(* Laws of the definitions, on all small vectors with NaN.                   *)
EXTENDS Reduce
CONSTANTS N, Vals
VARIABLES v, p, d
Init == /\ v \in UNION {[1..n -> Vals] : n \in 1..N} /\ p \in 0..4
        /\ d \in UNION {[1..k -> 1..3] : k \in 1..3}
Spec == Init /\ [][FALSE]_<<v, p, d>>
Bounds == NonNan(v) # <<>> => /\ MinV(v) <= Median(v) /\ Median(v) <= MaxV(v)
                              /\ MinV(v) <= Pct(v, p, 4) /\ Pct(v, p, 4) <= MaxV(v)
Extremes == Pct(v, 0, 4) = MinV(v) /\ Pct(v, 4, 4) = MaxV(v)
MedianPct == Median(v) = Pct(v, 1, 2)
NanIgnored == Median(v) = Median(NonNan(v)) /\ MinV(v) = MinV(NonNan(v)) /\ Pct(v, p, 4) = Pct(NonNan(v), p, 4)
UnitWeights == WPct(v, [i \in 1..Len(v) |-> 1], 4, 4) = MaxV(v)
\* slices along any axis partition the positions
SlicesPartition == LET x == Vc(d, Iota(Prod(d))) IN \A a \in 1..Len(d) :
    /\ UNION {Range1(Slice(x, a, i)) : i \in 0..(NSlices(x, a) - 1)} = 0..(Prod(d) - 1)
    /\ NSlices(x, a) * d[a] = Prod(d)
=============================================================================
