------------------------------ MODULE RandomMC ------------------------------
(* The definitions: every value is drawn, with the right chance, and no      *)
(* other; every order is as likely.                                          *)
EXTENDS Random, TLC
CONSTANTS R, W, L
VARIABLES lo, k, w, s
vars == <<lo, k, w, s>>
Init == /\ lo \in -R..R /\ k \in 1..R
        /\ w \in {x \in UNION {[1..n -> 0..W] : n \in 1..3} : Sum(x) > 0}
        /\ s \in UNION {[1..n -> 1..3] : n \in 0..L}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
M == 12 * k
Ints == LET I(u) == Int_(u, M, lo, lo + k - 1) IN
    /\ \A u \in 0..(M - 1) : I(u) \in lo..(lo + k - 1)
    /\ \A v \in lo..(lo + k - 1) : Cardinality({u \in 0..(M - 1) : I(u) = v}) = 12
Picks == \A i \in 1..Len(w) : Cardinality({u \in 0..(Sum(w) - 1) : Pick(u, w) = i}) = w[i]
Perms(t) == {[i \in 1..Len(t) |-> t[p[i]]] : p \in Permutations(1..Len(t))}
Choices(n) == {c \in [1..n -> 1..n] : \A i \in 1..n : c[i] <= i}
Orders == /\ {Fy(s, c, Len(s)) : c \in Choices(Len(s))} = Perms(s)
          /\ \A c \in Choices(Len(s)) : SamePerm(s, Fy(s, c, Len(s)))
          /\ (\A i, j \in 1..Len(s) : i # j => s[i] # s[j]) => Cardinality({Fy(s, c, Len(s)) : c \in Choices(Len(s))}) = Cardinality(Choices(Len(s)))
\* exact proportions are accepted; the density of a line is split by its surface
Exact == LET r == [u \in 1..Sum(w) |-> Pick(u - 1, w)] IN Follows(r, w)
Surface == LET x == [i \in 1..Len(w) |-> i * i] IN Len(w) > 1 =>
    \A i \in 1..(Len(w) - 1) : Halves(x, w)[(2 * i) - 1] + Halves(x, w)[2 * i] = 4 * (x[i + 1] - x[i]) * (w[i] + w[i + 1])
\* a value that is never drawn, or twice as likely, is noticed
Notice == k > 1 => LET n == 600 * k
                       skip == [u \in 1..n |-> 2 + (u % (k - 1))] twice == [u \in 1..n |-> IF u % (k + 1) = k THEN 1 ELSE (u % (k + 1)) + 1] IN
    ~Follows(skip, Flat(k)) /\ (k < 6 => ~Follows(twice, Flat(k)))
=============================================================================
