----------------------------- MODULE ReduceTrace -----------------------------
EXTENDS Reduce, TraceLib
S == 1000
One(e, x) == e.ok = 1 /\ e.r = <<x>>
\* value of function f on the list v is r (in the encoding of the driver)
Fn(f, v, r, e) ==
    CASE f = "total" -> r = Total(v)
      [] f = "count" -> r = Count(v, 1)
      [] f = "mean" -> IF v = <<>> \/ HasNan(v) THEN r = VNAN ELSE Near(r, S, Total(v), Len(v))
      [] f = "fraction" -> IF v = <<>> THEN r = VNAN ELSE Near(r, S, Count(v, 1), Len(v))
      [] f = "median" -> r = Median(v)
      [] f = "mad" -> r = Mad(v)
      [] f = "min" -> r = MinV(v)
      [] f = "max" -> r = MaxV(v)
      [] f = "pct" -> r = Pct(v, e.p, e.q)
      [] f = "rms" -> IF v = <<>> \/ HasNan(v) THEN r = VNAN ELSE NearRoot(r, 100, SumSq(v), Len(v))
      [] f = "stddev" -> IF v = <<>> \/ HasNan(v) THEN r = VNAN
                         ELSE NearRoot(r, 100, Len(v) * SumSq(v) - Total(v) * Total(v), Len(v) * Len(v))
      [] OTHER -> FALSE
NeedsData == {"median", "mad", "min", "max", "pct"}
W(e) == [i \in 1..Len(e.e) |-> 4 \div (e.e[i] * e.e[i])]
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])
Accept(e) ==
    (IF e.op = "crash" THEN FALSE ELSE (Has(e, "after") => e.after = e.v)) /\
    CASE e.op = "fn" -> IF Len(e.v) = 0 /\ e.f \in NeedsData THEN e.ok # 1 ELSE e.ok = 1 /\ Fn(e.f, e.v, e.r[1], e)
      [] e.op = "pcts" -> IF Len(e.v) = 0 THEN e.ok # 1
                          ELSE e.ok = 1 /\ Len(e.r) = Len(e.ps) /\ \A k \in 1..Len(e.ps) : e.r[k] = Pct(e.v, e.ps[k], e.q)
      [] e.op = "minid" -> IF Len(e.v) = 0 THEN e.ok # 1 ELSE e.ok = 1 /\ e.r = <<MinV(e.v), FirstId(e.v, MinV(e.v))>>
      [] e.op = "maxid" -> IF Len(e.v) = 0 THEN e.ok # 1 ELSE e.ok = 1 /\ e.r = <<MaxV(e.v), FirstId(e.v, MaxV(e.v))>>
      [] e.op = "minmax" -> IF Len(e.v) = 0 THEN e.ok # 1
                            ELSE /\ e.ok = 1 /\ e.r[1] = MinV(e.v) /\ e.r[2] = MaxV(e.v)
                                 /\ e.r[3] < Len(e.v) /\ e.r[4] < Len(e.v) /\ e.v[e.r[3] + 1] = e.r[1] /\ e.v[e.r[4] + 1] = e.r[2]
      [] e.op = "min2" -> IF e.d = e.d2 THEN e.ok = 1 /\ e.rd = e.d /\ e.r = [i \in 1..Len(e.v) |-> Min2(e.v[i], e.v2[i])] ELSE e.ok # 1
      [] e.op = "max2" -> IF e.d = e.d2 THEN e.ok = 1 /\ e.rd = e.d /\ e.r = [i \in 1..Len(e.v) |-> Max2(e.v[i], e.v2[i])] ELSE e.ok # 1
      [] e.op = "wmean" -> IF e.d # e.d2 THEN e.ok # 1 ELSE
                           e.ok = 1 /\ IF Total(e.w) = 0 THEN e.r[1] = VNAN ELSE Near(e.r[1], S, Dot(e.v, e.w), Total(e.w))
      [] e.op = "omean" -> IF e.d # e.d2 THEN e.ok # 1 ELSE
                           e.ok = 1 /\ IF e.v = <<>> THEN e.r = <<VNAN, VINF>>
                                       ELSE Near(e.r[1], S, Dot(e.v, W(e)), Total(W(e))) /\ NearRoot(e.r[2], 1000, 4, Total(W(e)))
      [] e.op = "among" -> IF e.d # e.d2 THEN e.ok # 1 ELSE
                           LET a == SelectSeq(Iota1(Len(e.v)), LAMBDA i : e.w[i] = 1) k == SelectSeq(a, LAMBDA i : e.v[i] = 1) IN
                           e.ok = 1 /\ IF a = <<>> THEN e.r[1] = VNAN ELSE Near(e.r[1], S, Len(k), Len(a))
      [] e.op = "wpct" -> IF Len(e.v) = 0 \/ e.d # e.d2 THEN e.ok # 1 ELSE e.ok = 1 /\ e.r = <<WPct(e.v, e.w, e.p, e.q)>>
      [] e.op = "clip" -> LET m == Median(e.v) k == Mad(e.v) IN
                          IF Len(e.v) = 0 THEN e.ok # 1
                          ELSE e.ok = 1 /\ e.rd = e.d /\ e.r = [i \in 1..Len(e.v) |->
                             IF e.v[i] = VNAN THEN 0 ELSE IF 200 * Abs(e.v[i] - m) <= 148 * e.s2 * k THEN 1 ELSE 0]
      \* along one axis
      [] e.op = "axis" -> LET x == Vc(e.d, e.v) IN
                          IF e.a > Len(e.d) THEN e.ok # 1
                          ELSE IF e.f \in NeedsData /\ e.d[e.a] = 0 /\ NSlices(x, e.a) > 0 THEN e.ok # 1
                          ELSE /\ e.ok = 1 /\ e.rd = DropAxis(e.d, e.a) /\ Len(e.r) = NSlices(x, e.a)
                               /\ \A i \in 1..Len(e.r) : Fn(e.f, Slice(x, e.a, i - 1), e.r[i], e)
      [] e.op = "run" -> LET x == Vc(e.d, e.v) IN
                         IF e.a > Len(e.d) THEN e.ok # 1
                         ELSE e.ok = 1 /\ e.r = [i \in 1..NSlices(x, e.a) |-> <<i - 1>> \o Slice(x, e.a, i - 1)]
      [] e.op = "run2" -> LET x == Vc(e.d, e.v) y == Vc(e.d2, e.v2) IN
                         IF e.a > Len(e.d) \/ e.d # e.d2 THEN e.ok # 1
                         ELSE e.ok = 1 /\ e.r = [i \in 1..NSlices(x, e.a) |-> <<i - 1>> \o Slice(x, e.a, i - 1) \o Slice(y, e.a, i - 1)]
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
