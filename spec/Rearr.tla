-------------------------------- MODULE Rearr --------------------------------
(* Rearrangements of whole vectors.  A vector is [d |-> dims, v |-> data].   *)
EXTENDS VecBase
Vc(d, v) == [d |-> d, v |-> v]
Empty(x) == Len(x.v) = 0
Shifted(v, n) == [i \in 1..Len(v) |-> v[((i - 1 - n) % Len(v)) + 1]]
Transposed(x) == Vc(<<x.d[2], x.d[1]>>, [p \in 1..Len(x.v) |->
    LET ix == Unflat(<<x.d[2], x.d[1]>>, p - 1) IN x.v[Flat(x.d, <<ix[2], ix[1]>>) + 1]])
Replicated(x, e) == Vc(e \o x.d, [p \in 1..(Prod(e) * Len(x.v)) |-> x.v[((p - 1) % Len(x.v)) + 1]])
Fits(x, y, n) == \A k \in 1..Len(x.d) : k = n \/ x.d[k] = y.d[k]
\* y after x along axis n (1-based)
Joined(x, y, n) ==
    LET d == [x.d EXCEPT ![n] = @ + y.d[n]] IN
    Vc(d, [p \in 1..Prod(d) |->
        LET ix == Unflat(d, p - 1) IN
        IF ix[n] < x.d[n] THEN x.v[Flat(x.d, ix) + 1]
        ELSE y.v[Flat(y.d, [ix EXCEPT ![n] = @ - x.d[n]]) + 1]])
\* the rows of x whose number is not in ids, in order
Removable(x, ids) == /\ \A i \in 1..Len(ids) : ids[i] \in 0..(x.d[1] - 1)
                     /\ Cardinality(Range1(ids)) = Len(ids)
Removed(x, ids) ==
    LET keep == Indices(x.d[1], LAMBDA i : (i - 1) \notin Range1(ids)) p == Stride(x.d, 1)
        d == [x.d EXCEPT ![1] = Len(keep)]
    IN Vc(d, [q \in 1..Prod(d) |-> x.v[(keep[((q - 1) \div p) + 1] - 1) * p + ((q - 1) % p) + 1]])
\* storage after writing w[k] at position ids[k]
Written(s, ids, w) == [p \in 1..Len(s) |-> IF \E k \in 1..Len(ids) : ids[k] = p - 1
    THEN w[CHOOSE k \in 1..Len(ids) : ids[k] = p - 1] ELSE s[p]]
=============================================================================
