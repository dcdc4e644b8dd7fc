------------------------------ MODULE HullTrace ------------------------------
EXTENDS Hull, TraceLib
Pts(xs, ys) == [i \in 1..Len(xs) |-> <<xs[i], ys[i]>>]
Near(a, b, t) == Abs(a) < 1900000000 /\ Abs(a - b) <= t
\* r is 64 times the distance of p to the polygon
DistOk(h, p, r) ==
    LET a == Abs(r) IN
    /\ a < 1500
    /\ \A i \in 1..(Len(h) - 1) : LET d == Seg2(h[i], h[i + 1], p) IN a * a * d[2] <= 4096 * d[1] + (2 * a + 1) * d[2]
    /\ \E i \in 1..(Len(h) - 1) : LET d == Seg2(h[i], h[i + 1], p) IN a * a * d[2] >= 4096 * d[1] - (2 * a + 1) * d[2]
    /\ (r > 1 => In(h, p)) /\ (r < -1 => ~In(h, p))
MaskOk(e) == /\ e.ok = 1 /\ Len(e.r) = e.d[1] * e.d[2]
    /\ \A i \in 1..Len(e.r) :
         LET y == (i - 1) \div e.d[2] x == (i - 1) % e.d[2]
             v == {LET g == e.regs[k] IN IF g.t = "circle" THEN (IF InCircle(g.p, x, y) THEN 1 ELSE 0) ELSE InBox(g.p, g.cs, x, y) : k \in 1..Len(e.regs)}
         IN IF e.m[i] = 1 \/ 1 \in v THEN e.r[i] = 1 ELSE IF 2 \in v THEN TRUE ELSE e.r[i] = 0
Accept(e) ==
    IF e.op = "crash" THEN FALSE
    ELSE CASE e.op = "build" -> /\ e.ok = 1 /\ Len(e.hx) = Len(e.hy) /\ e.closed = 1 /\ e.orient = 1
                                /\ LET p == Pts(e.x, e.y) IN IsHull({p[i] : i \in DOMAIN p}, Pts(e.hx, e.hy))
      [] e.op = "in" -> e.ok = 1 /\ Len(e.r) = Len(e.px) /\ LET h == Pts(e.hx, e.hy) IN \A i \in 1..Len(e.r) : (e.r[i] = 1) <=> In(h, <<e.px[i], e.py[i]>>)
      [] e.op = "dist" -> e.ok = 1 /\ Len(e.r) = Len(e.px) /\ LET h == Pts(e.hx, e.hy) IN \A i \in 1..Len(e.r) : DistOk(h, <<e.px[i], e.py[i]>>, e.r[i])
      [] e.op = "bad" -> e.ok # 1
      \* in hundredths of the unit cell, the scale of right ascensions being e.sc / 100
      [] e.op = "area" -> e.ok = 1 /\ LET h == Pts(e.hx, e.hy) a == IF Len(h) < 4 THEN 0 ELSE (Abs(Area2(h)) * e.sc) \div 2 IN Near(e.r, a, 12 + (a \div 100))
      \* a full lattice of sources, in hundredths of a cell, the scale of right ascensions being e.sc / 100
      [] e.op = "lattice" -> e.ok = 1 /\ LET a == e.n * e.m * e.sc IN Near(e.r, a, (a * 3) \div 10)
      [] e.op = "aligned" -> e.ok = 1 /\ e.r = 0
      [] e.op = "read" -> e.ok = 1 /\ e.r = Read(e.lines, 1, FALSE, "green")
      [] e.op = "write" -> e.ok = 1 /\ e.r = e.regs
      [] e.op = "mask" -> MaskOk(e)
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
