------------------------------- MODULE Random -------------------------------
(* Random draws: what is drawn, with which chances, from a source of equally *)
(* likely units; and what a recorded set of draws must look like.            *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Cum(_, _)
Cum(w, i) == IF i = 0 THEN 0 ELSE Cum(w, i - 1) + w[i]
Sum(w) == Cum(w, Len(w))
\* unit u of m equally likely ones
Int_(u, m, lo, hi) == lo + ((u * (hi - lo + 1)) \div m)
Pick(u, w) == CHOOSE i \in 1..Len(w) : Cum(w, i - 1) <= u /\ u < Cum(w, i)
Coin(u, m, p) == u < p
\* shuffling: the i-th element, from the last, is exchanged with one of the i first
RECURSIVE Fy(_, _, _)
Fy(s, c, i) == IF i <= 1 THEN s ELSE Fy([s EXCEPT ![i] = s[c[i]], ![c[i]] = s[i]], c, i - 1)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SamePerm(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
\* chances of the two halves of each segment of a density given at the points x (any unit)
Halves(x, y) == [k \in 1..(2 * (Len(x) - 1)) |-> LET i == (k + 1) \div 2 d == x[i + 1] - x[i] IN IF k % 2 = 1 THEN d * ((3 * y[i]) + y[i + 1]) ELSE d * (y[i] + (3 * y[i + 1]))]
Normal == <<1, 6, 15, 15, 6, 1>>         \* below -2, -1, 0, 1, 2, above (in 44ths)
\* c of n draws had a chance w out of m: within 7 standard deviations
Near(c, n, w, m) == LET d == Abs((c * m) - (n * w)) \div m IN d * d <= (49 * ((n * w * (m - w)) \div (m * m))) + 100
\* draws with the chances w of 1..Len(w)
Follows(r, w) == LET m == Sum(w) n == Len(r) IN
    /\ \A i \in 1..n : r[i] \in 1..Len(w) /\ w[r[i]] > 0
    /\ \A k \in 1..Len(w) : LET c == Count(r, k) IN Near(c, n, w[k], m) /\ (n * w[k] >= 40 * m => c > 0)
Flat(k) == [i \in 1..k |-> 1]
\* neighbours are as likely to be equal as any two draws
Mixed(r, w) == LET m == Sum(w) n == Len(r) - 1 IN (n < 1 \/ m > 30) \/
    LET e == Cardinality({i \in 1..n : r[i] = r[i + 1]}) sq == Sum([k \in 1..Len(w) |-> w[k] * w[k]]) IN Near(e, n, sq, m * m)
=============================================================================
