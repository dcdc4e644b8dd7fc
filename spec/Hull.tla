-------------------------------- MODULE Hull --------------------------------
(* Convex hulls of points of the plane (pairs of integers), membership,      *)
(* signed distances and areas; region files (circles and boxes in sky or     *)
(* pixel coordinates, in hundredths) and the masks that they describe.       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
Cross(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Aligned(P) == \A p, q, r \in P : Cross(p, q, r) = 0
Ends(P) == {CHOOSE p \in P : \A q \in P : q = p \/ Before(p, q), CHOOSE p \in P : \A q \in P : q = p \/ Before(q, p)}
Next(h, i) == h[IF i = Len(h) THEN 2 ELSE i + 1]
Corners(h) == {h[i] : i \in DOMAIN h}
\* h is the hull of the set P: closed, counter-clockwise, without useless vertices
IsHull(P, h) ==
    CASE P = {} -> h = <<>>
      [] Cardinality(P) = 1 -> h # <<>> /\ Corners(h) = P
      [] Aligned(P) -> Len(h) = 3 /\ h[1] = h[3] /\ Corners(h) = Ends(P)
      [] OTHER -> /\ Len(h) >= 4 /\ h[1] = h[Len(h)] /\ Corners(h) \subseteq P
                  /\ \A i \in 1..(Len(h) - 1) : (\A p \in P : Cross(h[i], h[i + 1], p) >= 0) /\ Cross(h[i], h[i + 1], Next(h, i + 1)) > 0
\* twice the signed area of a closed polygon
RECURSIVE Area2From(_, _)
Area2From(h, i) == IF i >= Len(h) THEN 0 ELSE Cross(h[1], h[i], h[i + 1]) + Area2From(h, i + 1)
Area2(h) == Area2From(h, 2)
Sgn(x) == IF x > 0 THEN 1 ELSE -1
\* is p in the closed convex polygon h (of any orientation, not flat)?
In(h, p) == \A i \in 1..(Len(h) - 1) : Sgn(Area2(h)) * Cross(h[i], h[i + 1], p) >= 0
Dot(p, q, r) == (q[1] - p[1]) * (r[1] - p[1]) + (q[2] - p[2]) * (r[2] - p[2])
Len2(p, q) == Dot(p, q, q)
\* square of the distance of p to the segment [a, b], as a fraction
Seg2(a, b, p) == IF Dot(a, b, p) < 0 THEN <<Len2(a, p), 1>> ELSE IF Dot(b, a, p) < 0 THEN <<Len2(b, p), 1>>
                 ELSE <<Cross(a, b, p) * Cross(a, b, p), Len2(a, b)>>

\* ---- region files --------------------------------------------------------
Bad == 2000000001
\* does line l give a region, when coordinates are in pixels (phys) or on the sky?
Good(l, phys) == /\ Len(l.a) >= 2 /\ (phys => l.sex = 0) /\ \A i \in 1..Len(l.a) : l.a[i] # Bad
                 /\ (l.t = "circle" /\ Len(l.a) = 3) \/ (l.t = "box" /\ Len(l.a) = 5)
                 /\ (phys <=> l.suf = 0)
Region(l, phys, color) == [t |-> l.t, phys |-> IF phys THEN 1 ELSE 0, color |-> IF l.color = "" THEN color ELSE l.color, text |-> l.text,
                           p |-> [i \in 1..Len(l.a) |-> IF phys /\ i <= 2 THEN l.a[i] - 100 ELSE l.a[i]]]
RECURSIVE Read(_, _, _, _)
Read(ls, i, phys, color) ==
    IF i > Len(ls) THEN <<>>
    ELSE LET l == ls[i] IN
         CASE l.k = "sys" -> Read(ls, i + 1, l.name = "physical", color)
           [] l.k = "global" -> Read(ls, i + 1, phys, IF l.color = "" THEN color ELSE l.color)
           [] l.k = "region" -> (IF Good(l, phys) THEN <<Region(l, phys, color)>> ELSE <<>>) \o Read(ls, i + 1, phys, color)
           [] OTHER -> Read(ls, i + 1, phys, color)
\* ---- masks: is the centre of pixel (x, y) in the box, parameters in halves, direction (c, s) / n?  0 no, 1 yes, 2 border
InBox(p, cs, x, y) ==
    LET dx == 2 * x - p[1] dy == 2 * y - p[2] u == 2 * Abs(dx * cs[1] + dy * cs[2]) v == 2 * Abs(dy * cs[1] - dx * cs[2]) IN
    CASE u > p[3] * cs[3] \/ v > p[4] * cs[3] -> 0 [] u < p[3] * cs[3] /\ v < p[4] * cs[3] -> 1 [] OTHER -> IF cs[1] = 1 THEN 1 ELSE 2
\* more than two of the corners of the pixel are in the circle
InCircle(p, x, y) == Cardinality({c \in {-1, 1} \X {-1, 1} : LET dx == 2 * x + c[1] - p[1] dy == 2 * y + c[2] - p[2] IN dx * dx + dy * dy <= p[3] * p[3]}) > 2
=============================================================================
