----------------------------- MODULE VecAssignMC -----------------------------
(* A vector of N cells modified by any sequence of assignments between     *)
(* itself, its views and scalars read from itself.                         *)
EXTENDS VecAssign
CONSTANTS N, Steps
VARIABLES root, last, n
Views == [k : {"view"}, d : {<<N>>}, p : [1..N -> 0..(N - 1)]]
Ls == {[k |-> "vec"]} \cup Views
Rs == {[k |-> "vec"]} \cup Views \cup [k : {"e"}, p : 0..(N - 1)]
Init == root = [d |-> <<N>>, v |-> [i \in 1..N |-> 10 * i]] /\ last = <<>> /\ n = 0
Next == /\ n < Steps
        /\ \E o \in {"=", "+="}, L \in Ls, R \in Rs :
             /\ Allowed(root, o, L, R) /\ (IF o = "=" /\ L.k = "vec" THEN ~IsScalar(R) ELSE TRUE)
             /\ root' = Assign(root, o, L, R)
             /\ last' = <<root, o, L, R>>
        /\ n' = n + 1
Spec == Init /\ [][Next]_<<root, last, n>>
Shaped == WellShaped(root)
\* as if executed from a temporary: each written cell only depends on old values
AsIf == last = <<>> \/
    LET old == last[1] o == last[2] L == last[3] R == last[4]
        P == LPos(old, L)
        T == IF IsScalar(R) THEN Repeat(SVal(old, R), Len(P)) ELSE RVal(old, R)
    IN \A c \in 0..(N - 1) :
         LET W == {i \in 1..Len(P) : P[i] = c} IN
         IF W = {} THEN root.v[c + 1] = old.v[c + 1]
         ELSE IF o = "=" THEN root.v[c + 1] = T[Max(W)]
         ELSE root.v[c + 1] = old.v[c + 1] + MapThenSumSet(LAMBDA i : T[i], W)
\* no value appears from nowhere under plain assignment
NoInvention == (last # <<>> /\ last[2] = "=") => Range1(root.v) \subseteq Range1(last[1].v)
=============================================================================
