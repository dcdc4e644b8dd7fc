------------------------------- MODULE Regrid -------------------------------
(* Images on a common tangent plane: a grid is [d |-> <<nx, ny>>, c |-> the  *)
(* pixel (from 1, in quarters) at the reference, m |-> the orientation (a    *)
(* matrix, in fifths for a pair of grids at 3-4-5 angles where q = 5, else   *)
(* q = 1), s |-> the size of the pixels].  All positions and overlaps are    *)
(* then exact in fractions of pixels.                                        *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
NaN == 2000000001
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumF(f, n) == SumTo([i \in 1..n |-> f[i]], n)
Turned(a, b) == \* the orientation of grid a seen in grid b: transpose(b) * a
    [i \in 1..2 |-> [j \in 1..2 |-> (b[1][i] * a[1][j]) + (b[2][i] * a[2][j])]]
\* the position in the grid b (from 0, in units of 1/(k * q * b.s)) of the offset v (in 1/k) from the reference of the grid a, for k a multiple of 4
Map(a, b, v, k) == LET r == Turned(a.m, b.m) IN
    [i \in 1..2 |-> (a.s * ((r[i][1] * v[1]) + (r[i][2] * v[2]))) + (b.q * ((((k \div 4) * b.s) * b.c[i]) - (k * b.s)))]

\* ---- drizzling: pixels of a (shrunk to p quarters) shared over those of b --
\* the extent of pixel <<x, y>> of a, in eighths from the reference, then in b
Corner(a, q, p, e) == <<(2 * ((4 * (q[1] + 1)) - a.c[1])) + (e[1] * p), (2 * ((4 * (q[2] + 1)) - a.c[2])) + (e[2] * p)>>
Extent(a, b, q, p) == LET u == Map(a, b, Corner(a, q, p, <<-1, -1>>), 8)
                          v == Map(a, b, Corner(a, q, p, <<1, 1>>), 8)
                      IN [i \in 1..2 |-> <<Mn(u[i], v[i]), Mx(u[i], v[i])>>]
Common(lo, hi, lo2, hi2) == Mx(0, Mn(hi, hi2) - Mx(lo, lo2))
\* the common area (in 1/(8 b.s)^2) of an extent and pixel <<x, y>> of b
Area(b, ext, q) == LET o(i) == Common(ext[i][1], ext[i][2], (8 * b.s * q[i]) - (4 * b.s), (8 * b.s * q[i]) + (4 * b.s)) IN o(1) * o(2)
\* exts: function of pixel number of a (row by row, from 0)
Exts(a, b, p) == [n \in 0..((a.d[1] * a.d[2]) - 1) |-> Extent(a, b, <<n % a.d[1], n \div a.d[1]>>, p)]
Weight(a, b, ex, q) == SumF([n \in 1..(a.d[1] * a.d[2]) |-> Area(b, ex[n - 1], q)], a.d[1] * a.d[2])
Flux(a, b, ex, img, q) == SumF([n \in 1..(a.d[1] * a.d[2]) |-> img[n] * Area(b, ex[n - 1], q)], a.d[1] * a.d[2])

\* ---- turned pixels (q = 5): polygons, in units of 1/(480 b.s), which makes all crossings exact ----
Poly(a, b, q, p) == [k \in 1..4 |-> LET v == Map(a, b, Corner(a, q, p, (<<<<-1, -1>>, <<1, -1>>, <<1, 1>>, <<-1, 1>>>>)[k]), 8) IN <<12 * v[1], 12 * v[2]>>]
Cross(p, c, i, k) == LET lo == IF p[i] < c[i] THEN p ELSE c hi == IF p[i] < c[i] THEN c ELSE p j == 3 - i
                         y == lo[j] + (((k - lo[i]) * (hi[j] - lo[j])) \div (hi[i] - lo[i])) IN IF i = 1 THEN <<k, y>> ELSE <<y, k>>
RECURSIVE Clip(_, _, _, _, _)
Clip(s, i, k, g, n) == \* the part of the polygon where g * (coordinate i) >= g * k
    IF n > Len(s) THEN <<>> ELSE
    LET c == s[n] p == s[IF n = 1 THEN Len(s) ELSE n - 1] in(x) == g * (x[i] - k) >= 0 IN
    (IF in(c) # in(p) THEN <<Cross(p, c, i, k)>> ELSE <<>>) \o (IF in(c) THEN <<c>> ELSE <<>>) \o Clip(s, i, k, g, n + 1)
Double(s) == IF Len(s) < 3 THEN 0 ELSE Abs(SumF([n \in 1..(Len(s) - 2) |-> ((s[n + 1][1] - s[1][1]) * (s[n + 2][2] - s[1][2])) - ((s[n + 2][1] - s[1][1]) * (s[n + 1][2] - s[1][2]))], Len(s) - 2))
\* twice the common area with the square around <<x, y>>, u per pixel
Area2(s, q, u) == LET a == Clip(s, 1, (u * q[1]) - (u \div 2), 1, 1) b == Clip(a, 1, (u * q[1]) + (u \div 2), -1, 1)
                      c == Clip(b, 2, (u * q[2]) - (u \div 2), 1, 1) IN Double(Clip(c, 2, (u * q[2]) + (u \div 2), -1, 1))
\* of all pixels of a (from 1)
Shares(a, b, p, q) == [n \in 1..(a.d[1] * a.d[2]) |-> Area2(Poly(a, b, <<(n - 1) % a.d[1], (n - 1) \div a.d[1]>>, p), q, 480 * b.s)]

\* ---- interpolating: the value of the image on a at pixels of b ------------
\* position (from 0) in a, in units of 1/(4 q a.s)
Pos(a, b, q) == Map(b, a, <<(4 * (q[1] + 1)) - b.c[1], (4 * (q[2] + 1)) - b.c[2]>>, 4)
Unit(a) == 4 * a.s * a.q
Px(a, img, x, y) == img[(y * a.d[1]) + x + 1]
Outside(a, p) == \E i \in 1..2 : p[i] < 0 \/ p[i] > (a.d[i] - 1) * Unit(a)
OnEdge(a, p) == \E i \in 1..2 : p[i] = 0 \/ p[i] = (a.d[i] - 1) * Unit(a)
\* the four pixels around, weighted: in units of 1/Unit^2
Linear(a, img, p) == LET u == Unit(a) x == p[1] \div u y == p[2] \div u fx == p[1] % u fy == p[2] % u
                         g(i, j, w) == IF w = 0 THEN 0 ELSE w * Px(a, img, i, j)
                     IN g(x, y, (u - fx) * (u - fy)) + g(x + 1, y, fx * (u - fy)) + g(x, y + 1, (u - fx) * fy) + g(x + 1, y + 1, fx * fy)
Tie(a, p) == \E i \in 1..2 : (p[i] + (Unit(a) \div 2)) % Unit(a) = 0
Near_(a, p, i) == (p[i] + (Unit(a) \div 2)) \div Unit(a)
Inside(a, p) == \A i \in 1..2 : Near_(a, p, i) \in 0..(a.d[i] - 1)

\* ---- cutouts: squares of 2h+1 pixels around a source ----------------------
\* pixel (from 0) nearest to the source at offset v (in quarters, never half way)
Centre(g, v) == [i \in 1..2 |-> (g.c[i] + v[i] - 4 + 2) \div 4]
Covers(g, c, h) == \A i \in 1..2 : c[i] + h >= 0 /\ c[i] - h <= g.d[i] - 1
Within(g, c, h) == \A i \in 1..2 : c[i] - h >= 0 /\ c[i] + h <= g.d[i] - 1
At(g, img, x, y, def) == IF x \in 0..(g.d[1] - 1) /\ y \in 0..(g.d[2] - 1) THEN Px(g, img, x, y) ELSE def
Cut(g, img, c, h, def) == [n \in 1..((2 * h + 1) * (2 * h + 1)) |->
    At(g, img, c[1] - h + ((n - 1) % (2 * h + 1)), c[2] - h + ((n - 1) \div (2 * h + 1)), def)]
\* pixels missing in a cutout are taken from the next image
Fill(s, t) == [n \in 1..Len(s) |-> IF s[n] = NaN THEN t[n] ELSE s[n]]
RECURSIVE Merge(_, _, _, _, _, _)
Merge(gs, v, h, def, i, acc) == \* acc: <<>> or the cutout so far
    IF i > Len(gs) THEN acc
    ELSE LET c == Centre(gs[i], v) IN
         Merge(gs, v, h, def, i + 1, IF ~Covers(gs[i], c, h) THEN acc ELSE IF acc = <<>> THEN Cut(gs[i], gs[i].p, c, h, def) ELSE Fill(acc, Cut(gs[i], gs[i].p, c, h, def)))
FirstCover(gs, v, h) == {i \in 1..Len(gs) : Covers(gs[i], Centre(gs[i], v), h) /\ \A j \in 1..(i - 1) : ~Covers(gs[j], Centre(gs[j], v), h)}

\* ---- stacks: cutouts of all sources, image after image --------------------
Finite(s) == \A n \in 1..Len(s) : s[n] # NaN
\* state: [id, cut, dx, dy, sect], in order of discovery
Step(st, g, k, v, i, h, keep) ==
    LET c == Centre(g, v) t == Cut(g, g.p, c, h, NaN) J == {j \in 1..Len(st) : st[j].id = i} IN
    IF ~Covers(g, c, h) \/ (~keep /\ ~Finite(t)) THEN st
    ELSE IF J = {} THEN Append(st, [id |-> i, cut |-> t, dx |-> g.c[1] + v[1] - 4 - (4 * c[1]), dy |-> g.c[2] + v[2] - 4 - (4 * c[2]), sect |-> k])
    ELSE [j \in 1..Len(st) |-> IF j \in J THEN [st[j] EXCEPT !.cut = Fill(@, t)] ELSE st[j]]
RECURSIVE Stack(_, _, _, _, _, _, _)
Stack(gs, vs, h, keep, k, i, st) ==
    IF k > Len(gs) THEN st ELSE IF i > Len(vs) THEN Stack(gs, vs, h, keep, k + 1, 1, st)
    ELSE Stack(gs, vs, h, keep, k, i + 1, Step(st, gs[k], k - 1, vs[i], i - 1, h, keep))
\* with weights on a single image: only sources fully inside
Kept(g, w, v, h, keep) == LET c == Centre(g, v) IN Within(g, c, h) /\ (keep \/ (Finite(Cut(g, g.p, c, h, NaN)) /\ Finite(Cut(g, w, c, h, NaN))))
=============================================================================
