------------------------------- MODULE Image -------------------------------
(* Images: tables of pixels, of dimensions d = <<rows, columns>>, stored by  *)
(* rows; indices start at 0.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Img(d, v) == [d |-> d, v |-> v]
At(m, x, y) == m.v[x * m.d[2] + y + 1]
Inside(d, x, y) == x >= 0 /\ x < d[1] /\ y >= 0 /\ y < d[2]
Get(m, x, y, def) == IF Inside(m.d, x, y) THEN At(m, x, y) ELSE def
\* image of dimensions d with pixels f(x, y)
Make(d, f(_, _)) == Img(d, [i \in 1..(d[1] * d[2]) |-> f((i - 1) \div d[2], (i - 1) % d[2])])
Pixels(d) == {<<x, y>> : x \in 0..(d[1] - 1), y \in 0..(d[2] - 1)}
Flat(d, p) == p[1] * d[2] + p[2]
SumOver(S, f(_)) == MapThenSumSet(f, S)
Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x

\* ---- geometry: all are "the pixels are somewhere else" ------------------
Window(m, x0, y0, d, def) == Make(d, LAMBDA x, y : Get(m, x + x0, y + y0, def))
Enlarge(m, u, def) == Window(m, -u[1], -u[2], <<m.d[1] + u[1] + u[3], m.d[2] + u[2] + u[4]>>, def)
ShrinkFits(m, u) == u[1] + u[3] < m.d[1] /\ u[2] + u[4] < m.d[2]
Shrink(m, u) == Window(m, u[1], u[2], <<m.d[1] - u[1] - u[3], m.d[2] - u[2] - u[4]>>, 0)
FlipX(m) == Make(m.d, LAMBDA x, y : At(m, x, m.d[2] - 1 - y))
FlipY(m) == Make(m.d, LAMBDA x, y : At(m, m.d[1] - 1 - x, y))
Shift(m, a, b) == Make(m.d, LAMBDA x, y : At(m, (x - a) % m.d[1], (y - b) % m.d[2]))
Translate(m, a, b, def) == Window(m, -a, -b, m.d, def)
Recenter(m, cx, cy, d, def) == Window(m, cx - d[1] \div 2, cy - d[2] \div 2, d, def)
\* pixels of the region r = <<x0, y0, x1, y1>> (inclusive) that are in the image, and their place in the region
RegionPixels(d, r) == {p \in Pixels(d) : r[1] <= p[1] /\ p[1] <= r[3] /\ r[2] <= p[2] /\ p[2] <= r[4]}
InRegion(r, p) == (p[1] - r[1]) * (r[4] - r[2] + 1) + (p[2] - r[2])

\* ---- value between the pixels; positions in quarters of a pixel, result in 16ths
\* known strictly inside the image; def outside; the last row and column themselves are left open
Between(d, x4, y4) == x4 >= 0 /\ y4 >= 0 /\ x4 < 4 * (d[1] - 1) /\ y4 < 4 * (d[2] - 1)
Beyond(d, x4, y4) == x4 < 0 \/ y4 < 0 \/ x4 > 4 * (d[1] - 1) \/ y4 > 4 * (d[2] - 1)
Value16(m, x4, y4) == LET x == x4 \div 4 y == y4 \div 4 fx == x4 % 4 fy == y4 % 4 IN
    (4 - fx) * (4 - fy) * At(m, x, y) + fx * (4 - fy) * At(m, x + 1, y) + (4 - fx) * fy * At(m, x, y + 1) + fx * fy * At(m, x + 1, y + 1)

\* ---- masks ----------------------------------------------------------------
\* number of corners of the pixel in the circle of centre (x, y) and radius r, all in halves of a pixel
Corners(px, py, r, x, y) == Cardinality({c \in {<<-1, -1>>, <<-1, 1>>, <<1, -1>>, <<1, 1>>} :
    Sq(2 * px + c[1] - x) + Sq(2 * py + c[2] - y) <= Sq(r)})
Dist1(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2])
Dist2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2])
Inflate(m, k) == LET on == {p \in Pixels(m.d) : At(m, p[1], p[2]) # 0} IN
    Make(m.d, LAMBDA x, y : IF \E p \in on : Dist1(p, <<x, y>>) <= k THEN 1 ELSE 0)
\* weight (in 16ths) of a pixel in ring i of a radial profile around the central pixel
Ring(d, i, p) == LET c == <<d[1] \div 2, d[2] \div 2>> IN
    Corners(p[1], p[2], 2 * i, 2 * c[1], 2 * c[2]) * (4 - Corners(p[1], p[2], 2 * (i - 1), 2 * c[1], 2 * c[2]))

\* ---- convolution: the kernel is centred on each pixel, the image is zero outside (or periodic)
Convolved(m, k, cyclic) == Make(m.d, LAMBDA x, y :
    SumOver(Pixels(k.d), LAMBDA p : LET sx == x - (p[1] - k.d[1] \div 2) sy == y - (p[2] - k.d[2] \div 2) IN
        At(k, p[1], p[2]) * (IF cyclic THEN At(m, sx % m.d[1], sy % m.d[2]) ELSE Get(m, sx, sy, 0))))
\* pixels in the square box of half-size h
Box(d, h, x, y) == {p \in Pixels(d) : Abs(p[1] - x) <= h /\ Abs(p[2] - y) <= h}

\* ---- segmentation: pixels that touch by a side ----------------------------
RECURSIVE Spread(_, _)
Spread(S, front) == LET n == {q \in S \ front : \E p \in front : Dist1(p, q) = 1} IN
    IF n = {} THEN front ELSE Spread(S, front \cup n)
Component(S, p) == Spread(S, {p})
RECURSIVE Components(_)
Components(S) == IF S = {} THEN {} ELSE LET c == Component(S, CHOOSE p \in S : TRUE) IN {c} \cup Components(S \ c)
Connected(S) == S = {} \/ Component(S, CHOOSE p \in S : TRUE) = S
OfValue(m, id) == {p \in Pixels(m.d) : At(m, p[1], p[2]) = id}
=============================================================================
