------------------------------ MODULE RegridMC ------------------------------
(* The definitions, over all small pairs of grids: areas are shared exactly, *)
(* going to another grid and back is the identity, equal grids change        *)
(* nothing.                                                                  *)
EXTENDS Regrid
CONSTANTS N, C, S
Ms == {<<<<1, 0>>, <<0, 1>>>>, <<<<-1, 0>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 0>>>>, <<<<0, -1>>, <<1, 0>>>>}
VARIABLES a, b, p
vars == <<a, b, p>>
Grids == [d : {<<n, m>> : n \in 1..N, m \in 1..2}, c : {<<x, y>> : x \in C, y \in {4, 7}}, m : Ms, s : S, q : {1}]
Init == a \in Grids /\ b \in Grids /\ p \in {2, 4}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Cells(g) == {<<n % g.d[1], n \div g.d[1]>> : n \in 0..((g.d[1] * g.d[2]) - 1)}
Img(g) == [n \in 1..(g.d[1] * g.d[2]) |-> 3 * n - 4]
\* each pixel covers (p/4)^2 of its area in the other grid, whatever the orientation
Conserve == \A n \in 0..((a.d[1] * a.d[2]) - 1) : LET e == Exts(a, b, p)[n] IN
    (e[1][2] - e[1][1]) * (e[2][2] - e[2][1]) = 4 * p * p * a.s * a.s
\* no destination pixel is covered more than once
Once == \A q \in Cells(b) : Weight(a, b, Exts(a, b, p), q) <= 64 * b.s * b.s
\* there and back: drizzling overlaps are symmetric at full size
Symmetric == p = 4 => \A q \in Cells(b) : \A n \in 0..((a.d[1] * a.d[2]) - 1) :
    LET q2 == <<n % a.d[1], n \div a.d[1]>> IN Area(b, Exts(a, b, 4)[n], q) = Area(a, Extent(b, a, q, 4), q2)
Same == (a = b /\ p = 4) => \A q \in Cells(b) : /\ Weight(a, b, Exts(a, b, p), q) = 64 * b.s * b.s
                                               /\ Flux(a, b, Exts(a, b, p), Img(a), q) = (64 * b.s * b.s) * Px(a, Img(a), q[1], q[2])
                                               /\ Pos(a, b, q) = <<q[1] * Unit(a), q[2] * Unit(a)>>
\* interpolation is exact at the pixels, and between the values around
Between == \A q \in Cells(b) : LET r == Pos(a, b, q) IN ~Outside(a, r) =>
    /\ \E x, y \in Cells(a) : (Unit(a) * Unit(a)) * Px(a, Img(a), x[1], x[2]) <= Linear(a, Img(a), r) /\ Linear(a, Img(a), r) <= (Unit(a) * Unit(a)) * Px(a, Img(a), y[1], y[2])
    /\ Inside(a, r)
\* a cutout holds the source in its central pixel
Centred == \A h \in 1..2 : LET c == Centre(a, <<1, -1>>) t == Cut(a, Img(a), c, h, NaN) IN
    /\ t[((2 * h + 1) * h) + h + 1] = At(a, Img(a), c[1], c[2], NaN)
    /\ (Within(a, c, h) <=> Finite(t)) /\ (Covers(a, c, h) <=> \E n \in 1..Len(t) : t[n] # NaN)
\* the same grids, one of them turned by a 3-4-5 angle
T == <<<<3, -4>>, <<4, 3>>>>
At5(g) == [g EXCEPT !.q = 5, !.m = [i \in 1..2 |-> [j \in 1..2 |-> (T[i][1] * g.m[1][j]) + (T[i][2] * g.m[2][j])]]]
Plain5(g) == [g EXCEPT !.q = 5]
Times5(g) == [g EXCEPT !.q = 5, !.m = [i \in 1..2 |-> [j \in 1..2 |-> 5 * g.m[i][j]]]]
\* polygons agree with the rectangles, the area of turned pixels is kept, all crossings are exact, and overlaps are symmetric
Wide(g, u) == {<<x, y>> : x \in -u..u, y \in -u..u}
P1 == <<0, 0>>
Turned5 == (a.c = b.c /\ a.d = <<1, 1>> /\ b.d = <<1, 1>>) =>
    /\ \A q \in Wide(b, 1) : Area2(Poly(Times5(a), Plain5(b), P1, p), q, 480 * b.s) = 7200 * Area(b, Extent(a, b, P1, p), q)
    /\ LET s == Poly(At5(a), Plain5(b), P1, p) u == 480 * b.s I == {<<x, y>> : x \in -9..9, y \in -9..9}
           hit == {q \in I : Area2(s, q, u) > 0} IN
        /\ Double(s) = 2 * (120 * p * a.s) * (120 * p * a.s)
        /\ (\A k \in 1..4 : \A i \in 1..2 : Abs(s[k][i]) < 8 * u) => SumTo([n \in 1..361 |-> Area2(s, <<((n - 1) % 19) - 9, ((n - 1) \div 19) - 9>>, u)], 361) = Double(s)
        /\ p = 4 => Area2(s, P1, u) = Area2(Poly(Plain5(b), At5(a), P1, p), P1, 480 * a.s)
=============================================================================
