------------------------------ MODULE XmatchMC ------------------------------
(* Search of the nearest neighbors by rings of buckets (as qxmatch does) on *)
(* a small grid: when the search stops, the neighbors are the true ones.    *)
EXTENDS Xmatch, FiniteSetsExt, SequencesExt
CONSTANTS W, M      \* positions in 0..W-1 squared, size of the second catalog
VARIABLES px, py, cat, nth, depth, found, done
vars == <<px, py, cat, nth, depth, found, done>>
Cell == 2           \* size of a bucket
NB == (W + 1) \div Cell
\* the corner of the grid is further than NB rings away (with MaxDepth == NB, Found fails for W = 14)
MaxDepth == CHOOSE s \in NB..(2 * NB) : s * s >= 2 * NB * NB /\ (s - 1) * (s - 1) < 2 * NB * NB
Pts == (0..(W - 1)) \X (0..(W - 1))
Sq(x) == x * x
DistTo(j) == SqDist(px, py, cat[j + 1][1], cat[j + 1][2])
BucketOf(x) == x \div Cell
\* the buckets reached at depth s (with offsets x, y >= 0), as the square of the distance of their nearest
\* corner, in units of half a bucket, is at most (2s+1)^2
AbsI(x) == IF x < 0 THEN -x ELSE x
Reached(s, x, y) == IF s = 0 THEN x = 0 /\ y = 0
                    ELSE x <= s + 1 /\ y <= s + 1 /\ (IF x = 0 THEN 1 ELSE Sq(2 * x - 1)) + (IF y = 0 THEN 1 ELSE Sq(2 * y - 1)) <= Sq(2 * (s + 1) + 1)
Ring(s) == {j \in 0..(Len(cat) - 1) :
              LET dx == AbsI(BucketOf(cat[j + 1][1]) - BucketOf(px)) dy == AbsI(BucketOf(cat[j + 1][2]) - BucketOf(py)) IN
              Reached(s, dx, dy) /\ \A t \in 0..(s - 1) : ~Reached(t, dx, dy)}
MaxDist2(s) == IF s = 0 THEN 1 ELSE Sq(2 * (s + 1) + 1)      \* Cell = 2: half a bucket is 1
\* distance of the source from the centre of its bucket
Offset2 == Sq(px - (2 * BucketOf(px) + 1)) + Sq(py - (2 * BucketOf(py) + 1))
\* sqrt(a) + sqrt(b) <= sqrt(m)
Within(a, b, m) == m >= a + b /\ 4 * a * b <= Sq(m - a - b)
Insert(l, j) == LET a == SelectSeq(l, LAMBDA k : DistTo(k) <= DistTo(j)) b == SelectSeq(l, LAMBDA k : DistTo(k) > DistTo(j))
                    r == a \o <<j>> \o b IN IF Len(r) > nth THEN SubSeq(r, 1, nth) ELSE r
Init == /\ px \in 0..(W - 1) /\ py \in 0..(W - 1) /\ cat \in UNION {[1..n -> Pts] : n \in 1..M} /\ nth \in 1..2
        /\ \A i \in 1..(Len(cat) - 1) : cat[i][1] <= cat[i + 1][1]
        /\ depth = 0 /\ found = <<>> /\ done = FALSE
Search == /\ ~done
          /\ LET f == FoldLeft(Insert, found, SetToSeq(Ring(depth))) IN
             /\ found' = f
             /\ done' = (depth + 1 >= MaxDepth \/ (Len(f) = nth /\ Within(DistTo(f[nth]), Offset2, MaxDist2(depth))))
          /\ depth' = depth + 1
          /\ UNCHANGED <<px, py, cat, nth>>
Next == Search
Spec == Init /\ [][Next]_vars
Row == [j \in 1..Len(cat) |-> DistTo(j - 1)]
Padded == [k \in 1..nth |-> IF k <= Len(found) THEN found[k] ELSE NoMatch]
Found == done => Nearest(Padded, [k \in 1..nth |-> IF k <= Len(found) THEN DistTo(found[k]) ELSE 0], Row, 0..(Len(cat) - 1), 0)
Distinct == IsInjective(found)
\* a pair kept by the one-to-one selection is its own mirror, and the others are lost
Mutual == LET id == <<IF found = <<>> THEN NoMatch ELSE found[1]>> rid == [j \in 1..Len(cat) |-> 0] IN
          Len(Best(id, rid)) + Len(Lost(id, rid)) = 1
=============================================================================
