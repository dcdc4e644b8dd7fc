------------------------------ MODULE FindTrace ------------------------------
EXTENDS Find, TraceLib
Valid(e) == \A k \in 1..Len(e.ids) : e.ids[k] < e.n
List(e, r) == e.ok = 1 /\ e.r = r /\ (Has(e, "rd") => e.rd = <<Len(r)>>)
Accept(e) ==
    CASE e.op = "where" -> List(e, Where(e.v))
      [] e.op = "first" -> List(e, <<First1(e.v)>>)
      [] e.op = "last" -> List(e, <<Last1(e.v)>>)
      [] e.op = "compl" -> IF Valid(e) THEN List(e, Complement(e.n, e.ids)) ELSE e.ok # 1
      [] e.op = "countall" -> List(e, Complement(Len(e.v), Where(e.v)))
      [] e.op = "mult" -> List(e, Unflat(e.d, e.i))
      [] e.op = "multv" -> LET D == Len(e.d) n == Len(e.i) IN
            /\ e.ok = 1 /\ e.rd = <<D, n>> /\ Len(e.r) = D * n
            /\ \A k \in 1..D, j \in 1..n : e.r[(k - 1) * n + j] = Unflat(e.d, e.i[j])[k]
      [] e.op = "flat" -> IF FlatOk(e.d, e.ix) THEN List(e, <<FlatOf(e.d, e.ix)>>) ELSE e.ok # 1
      [] e.op = "incr" -> List(e, Incr(e.d, e.l))
      [] e.op = "nearest" ->
            LET T == Trues(e.d, e.v) x == Min2(e.x, e.d[1] - 1) y == Min2(e.y, e.d[2] - 1)
                D(p) == Dist(x, y, Unflat(e.d, p)[1], Unflat(e.d, p)[2])
            IN e.ok = 1 /\ IF T = {} THEN e.r[1] = 0
               ELSE /\ e.r[1] = 1 /\ e.r[2] < e.d[1] /\ e.r[3] < e.d[2]
                    /\ Flat(e.d, <<e.r[2], e.r[3]>>) \in T
                    /\ \A p \in T : D(Flat(e.d, <<e.r[2], e.r[3]>>)) <= D(p)
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
