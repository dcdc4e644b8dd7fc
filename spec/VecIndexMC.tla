----------------------------- MODULE VecIndexMC -----------------------------
(* Exhaustive check of the access rules on small shapes.                   *)
EXTENDS VecIndex
CONSTANTS MaxN, MaxD
VARIABLES d, s, t
Shapes == UNION {[1..D -> 0..MaxN] : D \in 1..MaxD}
Sels == [k : {"i"}, a : (-MaxN - 1)..(MaxN)]
        \cup [k : {"r"}, a : -1..MaxN, b : -1..MaxN]
        \cup [k : {"v"}, l : UNION {[1..m -> -1..(MaxN-1)] : m \in 0..2}]
Init == /\ d \in Shapes /\ s \in [1..Len(d) -> Sels] /\ t = <<>>
Next == /\ t = <<>> /\ ~Unspec(d, s) /\ Valid(d, s) /\ UNCHANGED <<d, s>>
        /\ \E q \in Sels : ~Unspec(<<Len(ResultPos(d,s))>>, <<q>>) /\ t' = <<q>>
Spec == Init /\ [][Next]_<<d, s, t>>
X == [d |-> d, v |-> Iota(Prod(d))]
Ok == ~Unspec(d, s) /\ Valid(d, s)
R == Access(X, s)
Full == [k |-> "r", a |-> -1, b |-> -1]
\* the layout is a bijection
LayoutBijective == \A p \in 0..(Prod(d) - 1) : Flat(d, Unflat(d, p)) = p
\* results are well shaped and only hold existing elements
ResultShaped == Ok => WellShaped(R) /\ \A p \in 1..Len(R.v) : R.v[p] \in 0..(Prod(d) - 1)
\* full ranges are the identity; an access is total on valid selectors
FullIdentity == (\A k \in 1..Len(d) : s[k] = Full) => (Ok /\ R = X)
\* element-wise meaning, stated independently through multi-indices
ElementWise == Ok =>
    LET lens == [k \in 1..Len(d) |-> Len(Pos(s[k], d[k]))]
    IN \A p \in 0..(Len(R.v) - 1) :
         R.v[p + 1] = Flat(d, [k \in 1..Len(d) |-> Pos(s[k], d[k])[Unflat(lens, p)[k] + 1]])
\* a view of a view selects the composition
Compose == (t # <<>> /\ Ok /\ Valid(<<Len(R.v)>>, t)) =>
    LET y == AccessFlat(R, t[1]) IN y.v = Map(LAMBDA p : ResultPos(d, s)[p + 1], ResultPos(<<Len(R.v)>>, t))
=============================================================================
