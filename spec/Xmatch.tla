------------------------------- MODULE Xmatch -------------------------------
(* Cross-matching of two catalogs of positions: for each source of the      *)
(* first, its nearest sources in the second.  D[i][j] is the separation of  *)
(* source i of the first catalog and source j of the second (any monotonic  *)
(* measure of it, as an integer), exact up to tol.  Identifiers start at 0. *)
EXTENDS Integers, Sequences, FiniteSets

NoMatch == 2000000000
SqDist(x1, y1, x2, y2) == (x1 - x2) * (x1 - x2) + (y1 - y2) * (y1 - y2)
SqMatrix(x1, y1, x2, y2) == [i \in 1..Len(x1) |-> [j \in 1..Len(x2) |-> SqDist(x1[i], y1[i], x2[j], y2[j])]]

\* sources of the second catalog that source i of the first may be matched to
Avail(i, n2, self) == IF self = 1 THEN (0..(n2 - 1)) \ {i - 1} ELSE 0..(n2 - 1)
Least(a, b) == IF a < b THEN a ELSE b
AbsD(a, b) == IF a < b THEN b - a ELSE a - b

\* ids (and their separations ds) are the nth nearest among the available ones a,
\* where row is the list of separations: distinct, nearest first, nobody forgotten
Nearest(ids, ds, row, a, tol) ==
    LET m == Least(Len(ids), Cardinality(a)) IN
    /\ \A k \in 1..m : ids[k] \in a /\ AbsD(ds[k], row[ids[k] + 1]) <= tol
    /\ \A k \in (m + 1)..Len(ids) : ids[k] = NoMatch
    /\ \A k \in 1..m : \A l \in (k + 1)..m : ids[k] # ids[l] /\ ds[k] <= ds[l]
    /\ m > 0 => LET got == {ids[k] : k \in 1..m} IN \A j \in a \ got : row[j + 1] + 2 * tol >= ds[m]

Column(D, j) == [i \in 1..Len(D) |-> D[i][j]]

\* one-to-one pairs: sources that are each other's nearest
Best(id, rid) == SelectSeq([i \in 1..Len(id) |-> i - 1], LAMBDA i : id[i + 1] # NoMatch /\ rid[id[i + 1] + 1] = i)
Lost(id, rid) == SelectSeq([i \in 1..Len(id) |-> i - 1], LAMBDA i : ~(id[i + 1] # NoMatch /\ rid[id[i + 1] + 1] = i))
=============================================================================
