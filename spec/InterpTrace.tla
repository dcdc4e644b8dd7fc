----------------------------- MODULE InterpTrace -----------------------------
EXTENDS Interp, TraceLib
S == 1000
L == 12  \* a multiple of all widths, 1..4
\* r (in 1/100) is sqrt(z)/h within one unit
SqrtOf(r, h, z) == r >= 0 /\ r < 3000 /\ (r = 0 \/ (r - 1) * (r - 1) * h * h <= 10000 * z) /\ 10000 * z <= (r + 1) * (r + 1) * h * h
BadXY(e) == Len(e.x) # Len(e.y) \/ Len(e.x) < 2
Lin(e, t, r) == Within(r, S, LinNum(e.x, e.y, t), LinDen(e.x, e.y, t))
Edges(e) == Len(e.x) = Len(e.y)
\* index of the last abscissa not above b/2, 0-based
LastLe(x, b) == Cardinality({i \in 1..Len(x) : 2 * x[i] <= b}) - 1
IntRange(e, r) == Within(r, S, SumSeq([k \in 1..(Len(e.x) - 1) |-> PartTrap(e.x, e.y, k, e.a, e.b, L)]), 8 * L)
Accept(e) ==
    CASE e.op = "lin" -> IF BadXY(e) THEN e.ok # 1 ELSE e.ok = 1 /\ e.rd = <<Len(e.t)>> /\ \A k \in 1..Len(e.t) : Lin(e, e.t[k], e.r[k])
      [] e.op = "lin1" -> IF BadXY(e) THEN e.ok # 1 ELSE e.ok = 1 /\ Lin(e, e.t, e.r[1])
      [] e.op = "linerr" -> IF BadXY(e) THEN e.ok # 1
            ELSE /\ e.ok = 1 /\ e.rd = <<Len(e.t)>>
                 /\ \A k \in 1..Len(e.t) :
                      LET s == Seg(e.x, e.t[k]) h == 2 * (e.x[s + 1] - e.x[s]) p == e.t[k] - 2 * e.x[s]
                          z == (e.e[s] * (h - p)) * (e.e[s] * (h - p)) + (e.e[s + 1] * p) * (e.e[s + 1] * p)
                      IN Lin(e, e.t[k], e.r[k]) /\ SqrtOf(e.r2[k], h, z)
      [] e.op = "two" -> e.ok = 1 /\ Within(e.r[1], S, 2 * e.y[1] * (e.x[2] - e.x[1]) + (e.y[2] - e.y[1]) * (e.t - 2 * e.x[1]), 2 * (e.x[2] - e.x[1]))
      [] e.op = "bilin" -> e.ok = 1 /\ Within(e.r[1], S, Bilin4(e.d, e.v, e.tx, e.ty), 4)
      [] e.op = "bilinraw" -> e.ok = 1 /\ Within(e.r[1], S, Bilin4(<<2, 2>>, e.v, e.tx, e.ty), 4)
      [] e.op = "strict" -> e.ok = 1 /\ IF e.tx < 0 \/ e.ty < 0 \/ e.tx >= 2 * (e.d[1] - 1) \/ e.ty >= 2 * (e.d[2] - 1)
                                        THEN e.r = <<S * e.def>> ELSE Within(e.r[1], S, Bilin4(e.d, e.v, e.tx, e.ty), 4)
      \* separable: positions given in a regular grid of abscissae step s (axis positions o + s*i); xs, ys in halves of pixels
      [] e.op \in {"bilinxy", "rebin"} ->
            IF e.bad = 1 THEN e.ok # 1
            ELSE /\ e.ok = 1
                 /\ IF e.op = "rebin" THEN e.rd = <<Len(e.xs), Len(e.ys)>> /\ \A i \in 1..Len(e.xs), j \in 1..Len(e.ys) :
                                            Within(e.r[(i - 1) * Len(e.ys) + j], S, Bilin4(e.d, e.v, e.xs[i], e.ys[j]), 4)
                    ELSE e.rd = <<Len(e.xs)>> /\ \A i \in 1..Len(e.xs) : Within(e.r[i], S, Bilin4(e.d, e.v, e.xs[i], e.ys[i]), 4)
      [] e.op = "trapz" -> IF ~Edges(e) THEN e.ok # 1 ELSE e.ok = 1 /\ Within(e.r[1], S, Trapz2(e.x, e.y), 2)
      [] e.op = "cumulxy" -> IF ~Edges(e) THEN e.ok # 1
            ELSE e.ok = 1 /\ e.rd = <<Len(e.x)>> /\ \A k \in 1..Len(e.x) : Within(e.r[k], S, Trapz2(SubSeq(e.x, 1, k), SubSeq(e.y, 1, k)), 2)
      [] e.op = "intrange" -> IF ~Edges(e) \/ Len(e.x) = 0 THEN e.ok # 1
                              ELSE IF 2 * e.x[1] > e.a \/ 2 * e.x[Len(e.x)] < e.b THEN e.ok # 1
                              ELSE e.ok = 1 /\ IntRange(e, e.r[1])
      [] e.op = "inthint" -> e.ok = 1 /\ IntRange(e, e.r[1]) /\ e.h2 = LastLe(e.x, e.b)
      [] e.op = "intbin" -> e.ok = 1 /\ Within(e.r[1], S, SumSeq([k \in 1..Len(e.y) |-> e.y[k] * (e.up[k] - e.lo[k])]), 1)
      [] e.op = "intbinrange" -> IF 2 * e.lo[1] > e.a \/ 2 * e.up[Len(e.up)] < e.b THEN e.ok # 1
                                 ELSE e.ok = 1 /\ Within(e.r[1], S, SumSeq([k \in 1..Len(e.y) |-> PartBin(e.lo, e.up, e.y, k, e.a, e.b)]), 2)
      [] e.op = "intpoly" -> \* c1 + c2 x + c3 x^2 + c4 x^3 between a and b: twelve times
            LET P(x) == 12 * e.v[1] * x + 6 * e.v[2] * x * x + 4 * e.v[3] * x * x * x + 3 * e.v[4] * x * x * x * x
            IN e.ok = 1 /\ Within(e.r[1], 10, P(e.b) - P(e.a), 12)
      [] e.op = "spline" -> e.ok = 1 /\ NaturalSpline(e.x, e.y, S, e.r)
            \* beyond the ends: straight lines with the end slopes (samples one width h away, left and right)
            /\ LET f == e.r[1] g == e.r[Len(e.r)] IN
               /\ Abs(2 * (S * e.y[1] - e.left) - D1a(f)) <= 60
               /\ Abs(2 * (e.right - S * e.y[Len(e.y)]) - D1b(g)) <= 60
      [] e.op = "bicubic" -> e.ok = 1 /\
            LET i == e.tx \div 2 j == e.ty \div 2 Wt(t) == IF t % 2 = 0 THEN <<0, 40, 0, 0>> ELSE <<-3, 23, 23, -3>>
            IN IF i <= 0 \/ j <= 0 \/ i >= e.d[1] - 2 \/ j >= e.d[2] - 2 THEN e.r = <<100 * e.def>>
               ELSE Within(e.r[1], 100, SumSeq([p \in 1..16 |-> Wt(e.tx)[((p - 1) \div 4) + 1] * Wt(e.ty)[((p - 1) % 4) + 1]
                                                 * At(e.d, e.v, i - 1 + ((p - 1) \div 4), j - 1 + ((p - 1) % 4))]), 1600)
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
