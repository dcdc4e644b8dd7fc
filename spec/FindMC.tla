------------------------------- MODULE FindMC -------------------------------
(* All boolean vectors and all small shapes.                                 *)
EXTENDS Find
CONSTANTS N, M
VARIABLES v, d, p
Init == /\ \E n \in 0..N : v \in [1..n -> {0, 1}]
        /\ d \in UNION {[1..k -> 1..M] : k \in 1..3} /\ p \in 0..(Prod(d) - 1)
Spec == Init /\ [][FALSE]_<<v, d, p>>
Partition == LET w == Where(v) c == Complement(Len(v), Where(v)) IN
    Range1(w) \cap Range1(c) = {} /\ Range1(w) \cup Range1(c) = 0..(Len(v) - 1) /\ Len(w) + Len(c) = Len(v)
Ends == IF Where(v) = <<>> THEN First1(v) = NPOS /\ Last1(v) = NPOS
        ELSE First1(v) = Where(v)[1] /\ Last1(v) = Where(v)[Len(Where(v))]
RoundTrip == Flat(d, Unflat(d, p)) = p
Neg == FlatOf(d, [k \in 1..Len(d) |-> Unflat(d, p)[k] - d[k]]) = p
IncrCycle == Flat(d, Incr(d, Unflat(d, p))) = (p + 1) % Prod(d)
=============================================================================
