------------------------------ MODULE InterpMC ------------------------------
EXTENDS Interp
CONSTANTS N, Y, W
VARIABLES x, y, a, m, b
Xs == {s \in UNION {[1..n -> 0..(W * (N - 1))] : n \in 2..N} : \A i \in 1..(Len(s) - 1) : s[i + 1] - s[i] \in 1..W}
Init == /\ x \in {s \in Xs : s[1] = 0} /\ y \in [1..Len(x) -> 0..Y]
        /\ a \in 0..(2 * x[Len(x)]) /\ m \in a..(2 * x[Len(x)]) /\ b \in m..(2 * x[Len(x)])
Spec == Init /\ [][FALSE]_<<x, y, a, m, b>>
I(p, q) == SumSeq([k \in 1..(Len(x) - 1) |-> PartTrap(x, y, k, p, q, 12)])
Nodes == \A i \in 1..Len(x) : LinNum(x, y, 2 * x[i]) = y[i] * LinDen(x, y, 2 * x[i])
Additive == I(a, m) + I(m, b) = I(a, b)
Whole == I(0, 2 * x[Len(x)]) = 4 * 12 * Trapz2(x, y)
\* the samples of a straight line are those of a natural spline
LineIsSpline == LET g == [i \in 1..Len(x) |-> a * x[i] + m] IN
    NaturalSpline(x, g, 6, [k \in 1..(Len(x) - 1) |-> LET h == g[k + 1] - g[k] IN
        <<6 * g[k], 6 * g[k] + 2 * h, 6 * g[k] + 4 * h, 6 * g[k + 1], 6 * g[k] + 3 * h>>])
=============================================================================
