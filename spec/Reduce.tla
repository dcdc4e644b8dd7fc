------------------------------- MODULE Reduce -------------------------------
(* Reductions of the values of a vector.  Real results are recorded in fixed *)
(* point (units of 1/S) and compared within one unit.                        *)
EXTENDS Rearr, Order
NonNan(v) == SelectSeq(v, LAMBDA x : x # VNAN)
HasNan(v) == \E i \in 1..Len(v) : v[i] = VNAN
Total(v) == IF HasNan(v) THEN VNAN ELSE SumSeq(v)
SumSq(v) == SumSeq([i \in 1..Len(v) |-> v[i] * v[i]])
\* r is the fixed-point value of a/b, b > 0
Near(r, S, a, b) == Abs(r) < 100000000 /\ Abs(r * b - S * a) <= b
\* r is the fixed-point value of sqrt(a/b)
NearRoot(r, S, a, b) == r >= 0 /\ r < 20000 /\ (r - 1) * (Abs(r - 1)) * b <= S * S * a /\ S * S * a <= (r + 1) * (r + 1) * b
SortV(v) == SortSeq(v, LAMBDA a, b : Key(a) < Key(b))
Nth(v, k) == SortV(v)[k + 1]
Median(v) == LET w == NonNan(v) IN IF w = <<>> THEN VNAN ELSE Nth(w, Len(w) \div 2)
\* percentile p/q
Pct(v, p, q) == LET w == NonNan(v) n == Len(w) IN
    IF n = 0 THEN VNAN ELSE Nth(w, Max2(0, Min2(n - 1, (n * p) \div q)))
MinV(v) == LET w == NonNan(v) IN IF w = <<>> THEN VNAN ELSE Nth(w, 0)
MaxV(v) == LET w == NonNan(v) IN IF w = <<>> THEN VNAN ELSE Nth(w, Len(w) - 1)
FirstId(v, x) == IF x = VNAN THEN 0 ELSE FirstAt(v, x)
AbsDev(v, m) == [i \in 1..Len(v) |-> IF v[i] = VNAN THEN VNAN ELSE Abs(v[i] - m)]
Mad(v) == Median(AbsDev(v, Median(v)))
\* the weighted percentile: first value, in increasing order, at which the cumulated weight reaches the fraction p/q of the total
WPct(v, w, p, q) ==
    LET s == SortSeq(Iota1(Len(v)), LAMBDA a, b : Key(v[a]) < Key(v[b]) \/ (Key(v[a]) = Key(v[b]) /\ a < b))
        g == SelectSeq(s, LAMBDA i : v[i] # VNAN /\ w[i] # VNAN)
        tot(k) == SumSeq([i \in 1..k |-> w[g[i]]])
    IN IF tot(Len(g)) = 0 THEN VNAN
       ELSE v[g[CHOOSE k \in 1..Len(g) : q * tot(k) >= p * tot(Len(g)) /\ \A j \in 1..(k - 1) : q * tot(j) < p * tot(Len(g))]]
\* the slice of x along axis a (1-based) for the remaining indices number i (0-based, row-major)
DropAxis(s, a) == [k \in 1..(Len(s) - 1) |-> IF k < a THEN s[k] ELSE s[k + 1]]
InsAxis(s, a, y) == [k \in 1..(Len(s) + 1) |-> IF k < a THEN s[k] ELSE IF k = a THEN y ELSE s[k - 1]]
Slice(x, a, i) == [j \in 1..x.d[a] |-> x.v[Flat(x.d, InsAxis(Unflat(DropAxis(x.d, a), i), a, j - 1)) + 1]]
NSlices(x, a) == Prod(DropAxis(x.d, a))
=============================================================================
