------------------------------ MODULE WcsTrace ------------------------------
EXTENDS Wcs, TraceLib
Near(a, b, t) == Abs(a) < 1900000000 /\ Abs(a - b) <= t
NearRa(a, b, t) == a >= 0 /\ a <= Turn /\ (Near(a, b, t) \/ Near(a, b + Turn, t) \/ Near(a, b - Turn, t))
Tol(h) == IF Stretch(h) = 1 THEN 1 ELSE 6
All(s, t) == Len(s) = Len(t)
Ranges(h, e) == All(e.ra, e.x) /\ All(e.dec, e.x) /\ \A i \in 1..Len(e.x) : NearRa(e.ra[i], Ra(h, e.x[i], e.y[i]), Tol(h)) /\ Near(e.dec[i], Dec(h, e.x[i], e.y[i]), Tol(h))
Accept(e) ==
    IF e.op = "crash" THEN FALSE
    ELSE CASE e.op = "valid" -> e.ok = 1 /\ e.r = 1 /\ e.n = Len(e.h.kind) /\ \A i \in 1..Len(e.h.kind) : e.d[Len(e.h.kind) + 1 - i] = e.h.dims[i]
      [] e.op = "invalid" -> e.ok = 1 /\ e.r = 0 /\ e.n = 0 /\ e.ps = 0 /\ e.ir = 0
      \* pixels (in halves) to the sky, and back (in thousandths)
      [] e.op = "sky" -> e.ok = 1 /\ Ranges(e.h, e) /\ All(e.bx, e.x) /\ All(e.by, e.x)
                         /\ \A i \in 1..Len(e.x) : Near(e.bx[i], 500 * e.x[i], 1) /\ Near(e.by[i], 500 * e.y[i], 1)
      [] e.op = "bad" -> e.ok # 1
      [] e.op = "geom" -> e.ok = 1 /\ e.ps = 1 /\ e.ir = 1 /\ Near(e.size, 100 * e.h.scale, 1)
                          /\ LET n == North(e.h) IN Near(e.sin, -200 * n[1], 1) /\ Near(e.cos, 200 * n[2], 1)
      \* positions along an axis: values (in halves of the header's unit), and back
      [] e.op = "axis" -> IF ~UnitOk(e.h, e.a, e.u) THEN e.ok # 1
                          ELSE e.ok = 1 /\ All(e.r, e.x) /\ (e.kind = "build" \/ All(e.b, e.x))
                               /\ \A i \in 1..Len(e.x) : e.r[i] = Value2(e.h, e.a, e.x[i]) /\ (e.kind = "build" \/ Near(e.b[i], 500 * e.x[i], 1))
      [] e.op = "mkhdr" -> IF \A i \in 1..Len(e.p) : ParamOk(e.p[i]) THEN e.ok = 1 /\ e.good = 1 /\ e.r = Keys(e.p)
                           ELSE e.ok = 1 /\ e.good = 0 /\ e.same = 1
      \* regions in pixels (in halves): to the sky, and back (in thousandths)
      [] e.op = "region" -> e.ok = 1 /\ Ranges(e.h, e) /\ e.phys = 0 /\ e.bphys = 1 /\ Len(e.p) = Len(e.b) /\ Len(e.s) = Len(e.p) - 2
                            /\ (\A i \in 1..Len(e.p) : Near(e.b[i], 500 * e.p[i], 1 + (IF i > 2 THEN Abs(e.p[i]) \div 100 ELSE 0)))
                            \* sizes are in arcsec (tenths of thousandths), the angle does not change
                            /\ \A i \in 1..Len(e.s) : IF i = 3 THEN e.s[i] = 5000 * e.p[i + 2] ELSE Near(e.s[i], 500 * e.h.scale * e.p[i + 2], 2 + Abs(e.p[i + 2]))
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
