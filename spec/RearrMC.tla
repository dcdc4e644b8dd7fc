------------------------------- MODULE RearrMC -------------------------------
(* All pairs of small shapes; contents are distinct.                         *)
EXTENDS Rearr
CONSTANTS M, D
VARIABLES x, y, n, k
Mk(d, o) == Vc(d, [i \in 1..Prod(d) |-> o + i])
Shapes == UNION {[1..j -> 0..M] : j \in 1..D}
Init == /\ x \in {Mk(d, 0) : d \in Shapes} /\ y \in {Mk(d, 100) : d \in Shapes} /\ Len(x.d) = Len(y.d)
        /\ n \in 1..Len(x.d) /\ k \in -4..4
Spec == Init /\ [][FALSE]_<<x, y, n, k>>
Fit == Fits(x, y, n) /\ Len(x.v) > 0 /\ Len(y.v) > 0
JoinShape == Fit => WellShaped(Joined(x, y, n))
JoinPart == Fit => IsPermOf(Joined(x, y, n).v, x.v \o y.v)
\* appending then removing the added rows gives back the vector
JoinRemove == (Fit /\ n = 1) => Removed(Joined(x, y, 1), [i \in 1..y.d[1] |-> x.d[1] + i - 1]) = x
Involution == Len(x.d) = 2 => Transposed(Transposed(x)) = x
ShiftBack == Len(x.v) > 0 => Shifted(Shifted(x.v, k), -k) = x.v
ShiftCycle == Len(x.v) > 0 => Shifted(x.v, Len(x.v)) = x.v
RepShape == Len(x.v) > 0 => WellShaped(Replicated(x, <<2, 3>>))
=============================================================================
