-------------------------------- MODULE Hist --------------------------------
(* Bins [low, up), counting and accumulation.  bins: sequence of <<lo, up>>. *)
EXTENDS VecBase
Rank(x) == IF x = VNINF THEN -2000000000 ELSE x     \* (the code of +infinity is already above any number)
InBin(x, b) == x # VNAN /\ Rank(x) >= Rank(b[1]) /\ Rank(x) < Rank(b[2])
InOpen(x, bins, k) == x # VNAN /\ (k = 1 \/ Rank(x) >= Rank(bins[k][1])) /\ ((k = Len(bins) /\ k > 1) \/ Rank(x) < Rank(bins[k][2]))
IdsIn(v, b) == {i \in 1..Len(v) : InBin(v[i], b)}
Hist1(v, bins) == [k \in 1..Len(bins) |-> Cardinality(IdsIn(v, bins[k]))]
HistW(v, w, bins) == [k \in 1..Len(bins) |-> FoldSet(LAMBDA i, a : a + w[i], 0, IdsIn(v, bins[k]))]
Ids2(v, w, b, c) == IdsIn(v, b) \cap IdsIn(w, c)
Hist2(v, w, b, c) == [p \in 1..(Len(b) * Len(c)) |-> Cardinality(Ids2(v, w, b[((p - 1) \div Len(c)) + 1], c[((p - 1) % Len(c)) + 1]))]
Cumul(y) == [i \in 1..Len(y) |-> SumSeq(SubSeq(y, 1, i))]
CumulRev(y) == [i \in 1..Len(y) |-> SumSeq(SubSeq(y, i, Len(y)))]
\* calls: sequence of <<bin number (from 0), id, id, ...>> with the 0-based ids of the values of the bin:
\* bins in increasing order, each at most once, and a bin not called holds nothing
CallIds(c, k) == [i \in 1..(Len(c) - k) |-> c[i + k] + 1]
CallsOk(calls, n, ids(_)) ==
    /\ \A k \in 1..Len(calls) : /\ calls[k][1] \in 0..(n - 1)
                                /\ Range1(CallIds(calls[k], 1)) = ids(calls[k][1] + 1)
                                /\ Len(calls[k]) - 1 = Cardinality(ids(calls[k][1] + 1))
    /\ \A k \in 1..(Len(calls) - 1) : calls[k][1] < calls[k + 1][1]
    /\ \A b \in 1..n : (\A k \in 1..Len(calls) : calls[k][1] # b - 1) => ids(b) = {}
=============================================================================
