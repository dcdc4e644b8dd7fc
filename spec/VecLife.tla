------------------------------ MODULE VecLife ------------------------------
(* Life of vector variables under construction, copy, move, resize,         *)
(* push_back and clear.  regs is a function slot -> [d, v].                  *)
EXTENDS VecBase
Empty(D) == [d |-> Repeat(0, D), v |-> <<>>]
\* a resize of a 1-dimensional vector keeps what fits and zero-fills the rest; for more
\* dimensions the content is unspecified (DEF = any content)
ResizeOk(old, d, x) ==
    /\ x.d = d /\ Len(x.v) = Prod(d)
    /\ Len(d) = 1 => \A i \in 1..Len(x.v) : x.v[i] = IF i <= Len(old.v) THEN old.v[i] ELSE 0
Zeros(d) == [d |-> d, v |-> Repeat(0, Prod(d))]
PushOk(x, row) == Len(x.d) = 1 \/ x.v = <<>> \/ SubSeq(x.d, 2, Len(x.d)) = row.d
PushScalar(x, a) == [d |-> <<x.d[1] + 1>>, v |-> Append(x.v, a)]
PushRow(x, row) == IF x.v = <<>> THEN [d |-> <<1>> \o row.d, v |-> row.v]
                   ELSE [d |-> [x.d EXCEPT ![1] = @ + 1], v |-> x.v \o row.v]
=============================================================================
