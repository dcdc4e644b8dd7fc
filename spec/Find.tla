-------------------------------- MODULE Find --------------------------------
(* Positions of elements: where, complement, index conversions, nearest     *)
(* selected point.                                                           *)
EXTENDS VecBase
Where(v) == [k \in 1..Len(Indices(Len(v), LAMBDA i : v[i] = 1)) |-> Indices(Len(v), LAMBDA i : v[i] = 1)[k] - 1]
First1(v) == IF \E i \in 1..Len(v) : v[i] = 1 THEN (CHOOSE i \in 1..Len(v) : v[i] = 1 /\ \A j \in 1..(i - 1) : v[j] # 1) - 1 ELSE NPOS
Last1(v) == IF \E i \in 1..Len(v) : v[i] = 1 THEN (CHOOSE i \in 1..Len(v) : v[i] = 1 /\ \A j \in (i + 1)..Len(v) : v[j] # 1) - 1 ELSE NPOS
Complement(n, ids) == LET s == Indices(n, LAMBDA i : (i - 1) \notin Range1(ids)) IN [k \in 1..Len(s) |-> s[k] - 1]
Norm(n, i) == IF i < 0 THEN i + n ELSE i
FlatOk(d, ix) == \A k \in 1..Len(d) : Norm(d[k], ix[k]) \in 0..(d[k] - 1)
FlatOf(d, ix) == Flat(d, [k \in 1..Len(d) |-> Norm(d[k], ix[k])])
Incr(d, l) == Unflat(d, (Flat(d, l) + 1) % Prod(d))
Dist(x, y, a, b) == Abs(x - a) + Abs(y - b)
Trues(d, v) == {p \in 0..(Prod(d) - 1) : v[p + 1] = 1}
=============================================================================
