------------------------------ MODULE VecIndex ------------------------------
(* Element access.  An access applies one selector per axis:               *)
(*   [k |-> "i", a |-> n]            one index; negative counts from the end *)
(*   [k |-> "r", a |-> n, b |-> m]   inclusive range, -1 = open end          *)
(*   [k |-> "v", l |-> <<...>>]      list of indices (as for "i")            *)
(* An axis selected by one index disappears from the result.               *)
EXTENDS VecBase

\* the position designated by index a on an axis of n elements, or NPOS
Norm(a, n) == IF a >= n THEN NPOS ELSE IF a >= 0 THEN a ELSE IF a >= -n THEN a + n ELSE NPOS
\* indices below -n are documented neither as accepted nor as rejected
Deep(a, n) == n > 0 /\ a < -n

FirstOf(s) == IF s.a = -1 THEN 0 ELSE s.a
LastOf(s, n) == IF s.b = -1 THEN n - 1 ELSE s.b

ValidSel(s, n) ==
    CASE s.k = "i" -> Norm(s.a, n) # NPOS
      [] s.k = "r" -> /\ (s.a # -1 => s.a < n)
                      /\ (s.b # -1 => s.b < n)
                      /\ FirstOf(s) <= LastOf(s, n) + 1
      [] s.k = "v" -> \A i \in 1..Len(s.l) : Norm(s.l[i], n) # NPOS
\* ranges whose end precedes their start have no documented meaning
Unspecified(s, n) ==
    CASE s.k = "i" -> Deep(s.a, n)
      [] s.k = "r" -> /\ s.a # -1 /\ s.b # -1 /\ s.a > s.b
      [] s.k = "v" -> \E i \in 1..Len(s.l) : Deep(s.l[i], n)

\* positions selected on an axis of n elements
Pos(s, n) ==
    CASE s.k = "i" -> <<Norm(s.a, n)>>
      [] s.k = "r" -> [i \in 1..(LastOf(s, n) + 1 - FirstOf(s)) |-> FirstOf(s) + i - 1]
      [] s.k = "v" -> Map(LAMBDA a : Norm(a, n), s.l)

Valid(d, s) == \A k \in 1..Len(d) : ValidSel(s[k], d[k])
Unspec(d, s) == \E k \in 1..Len(d) : Unspecified(s[k], d[k])

ResultDims(d, s) == LET keep == Indices(Len(d), LAMBDA k : s[k].k # "i")
                    IN [j \in 1..Len(keep) |-> Len(Pos(s[keep[j]], d[keep[j]]))]
\* positions (in the storage of the accessed vector) of the elements of the result
ResultPos(d, s) ==
    LET P == [k \in 1..Len(d) |-> Pos(s[k], d[k])]
        L == [k \in 1..Len(d) |-> Len(P[k])]
        T == [k \in 1..Len(d) |-> Stride(L, k)]
        S == [k \in 1..Len(d) |-> Stride(d, k)]
        D == Len(d)
    IN [p \in 1..Prod(L) |->
          FoldLeft(LAMBDA acc, k : acc + S[k] * P[k][(((p - 1) \div T[k]) % L[k]) + 1], 0, Iota1(D))]

Access(x, s) == [d |-> ResultDims(x.d, s), v |-> Map(LAMBDA p : x.v[p + 1], ResultPos(x.d, s))]

\* x[...] : flat access, whatever the number of dimensions
AccessFlat(x, s) == Access([d |-> <<Len(x.v)>>, v |-> x.v], <<s>>)
=============================================================================
