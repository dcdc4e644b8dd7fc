------------------------------- MODULE Interp -------------------------------
(* Piecewise linear and spline interpolation, and integration.  Abscissae    *)
(* and ordinates are integers; results are fixed point (units of 1/S).       *)
EXTENDS VecBase
Within(r, S, num, den) == Abs(r) < 20000000 /\ Abs(r * den - S * num) <= den   \* r = S * num/den within one unit, den > 0
\* segment (1-based) used at abscissa t/2
Seg(x, t) == LET k == Cardinality({i \in 1..Len(x) : 2 * x[i] <= t}) IN IF k = 0 THEN 1 ELSE IF k >= Len(x) THEN Len(x) - 1 ELSE k
\* numerator and denominator of the value at t/2
LinNum(x, y, t) == LET k == Seg(x, t) IN 2 * y[k] * (x[k + 1] - x[k]) + (y[k + 1] - y[k]) * (t - 2 * x[k])
LinDen(x, y, t) == LET k == Seg(x, t) IN 2 * (x[k + 1] - x[k])
\* bilinear at (tx/2, ty/2): four times the value.  m: dims <<a, b>>, values v
Cell(n, t) == Max2(0, Min2(n - 2, (t \div 2)))
At(d, v, i, j) == v[i * d[2] + j + 1]
Bilin4(d, v, tx, ty) ==
    LET i == Cell(d[1], tx) j == Cell(d[2], ty) a == tx - 2 * i b == ty - 2 * j IN
    At(d, v, i, j) * (2 - a) * (2 - b) + At(d, v, i, j + 1) * (2 - a) * b
    + At(d, v, i + 1, j) * a * (2 - b) + At(d, v, i + 1, j + 1) * a * b
\* twice the integral of the polyline
Trapz2(x, y) == SumSeq([i \in 1..(Len(x) - 1) |-> (y[i] + y[i + 1]) * (x[i + 1] - x[i])])
\* integral of the polyline between a/2 and b/2 (a <= b, inside): sum over segments of the
\* clipped trapezia; eight times, multiplied by the segment width: collected over a common denominator L
ClipLo(x, k, a) == Max2(2 * x[k], a)
ClipHi(x, k, b) == Min2(2 * x[k + 1], b)
\* with u = 2x: integral over [p, q] (halves) = (q - p)/2 * (f(p) + f(q))/2, f(p) = y + dy*(p - 2xk)/(2h)
PartTrap(x, y, k, a, b, L) ==   \* L * 8 * integral over the part in segment k; L a multiple of the width
    LET p == ClipLo(x, k, a) q == ClipHi(x, k, b) h == x[k + 1] - x[k] IN
    IF p >= q THEN 0
    ELSE (q - p) * (4 * y[k] * L + (y[k + 1] - y[k]) * (p + q - 4 * x[k]) * (L \div h))
\* bins: low and up edges, contiguous; value of the histogram integral (halves): 2 * integral
PartBin(lo, up, y, k, a, b) == LET p == Max2(2 * lo[k], a) q == Min2(2 * up[k], b) IN IF p >= q THEN 0 ELSE (q - p) * y[k]
\* four samples of a cubic at 0, h/3, 2h/3, h: derivatives at both ends (times 2h/3... see below)
\* 6 * (h/3) * f'(0) = -11 f0 + 18 f1 - 9 f2 + 2 f3 ;  (h/3)^2 * f''(0) = 2 f0 - 5 f1 + 4 f2 - f3
D1a(f) == -11 * f[1] + 18 * f[2] - 9 * f[3] + 2 * f[4]
D1b(f) == -2 * f[1] + 9 * f[2] - 18 * f[3] + 11 * f[4]
D2a(f) == 2 * f[1] - 5 * f[2] + 4 * f[3] - f[4]
D2b(f) == -f[1] + 4 * f[2] - 5 * f[3] + 2 * f[4]
\* sp[k]: samples <<f0, f1, f2, f3, fmid>> of the spline on segment k (fixed point, unit tolerance 1)
NaturalSpline(x, y, S, sp) ==
    /\ Len(sp) = Len(x) - 1
    /\ \A k \in 1..Len(sp) : LET f == sp[k] IN
        /\ \A j \in 1..5 : Abs(f[j]) < 1000000
        /\ Abs(f[1] - S * y[k]) <= 1 /\ Abs(f[4] - S * y[k + 1]) <= 1
        /\ Abs(16 * f[5] - (9 * (f[2] + f[3]) - f[1] - f[4])) <= 40         \* a cubic
    /\ \A k \in 1..(Len(sp) - 1) : LET f == sp[k] g == sp[k + 1] h == x[k + 1] - x[k] H == x[k + 2] - x[k + 1] IN
        /\ Abs(D1b(f) * H - D1a(g) * h) <= 45 * (h + H)                     \* continuous slope
        /\ Abs(D2b(f) * H * H - D2a(g) * h * h) <= 15 * (h * h + H * H)     \* continuous curvature
    /\ Abs(D2a(sp[1])) <= 15 /\ Abs(D2b(sp[Len(sp)])) <= 15                 \* no curvature at the ends
=============================================================================
