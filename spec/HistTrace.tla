------------------------------ MODULE HistTrace ------------------------------
EXTENDS Hist, TraceLib
B(s) == LET n == Len(s) \div 2 IN [k \in 1..n |-> <<s[k], s[n + k]>>]
Is(e, d, v) == e.ok = 1 /\ e.rd = d /\ e.r = v
\* r within one unit (1/S) of a/b
Near(r, S, a, b) == Abs(r) < 1000000 /\ Abs(r * b - S * a) <= b
BinsOk(e) == e.bd[1] = 2
Accept(e) ==
    CASE e.op = "bins1" -> Is(e, <<2, 1>>, <<e.a, e.b>>)
      [] e.op = "bins" -> /\ e.ok = 1 /\ e.rd = <<2, e.n>>
                          /\ \A i \in 1..e.n : /\ Near(e.r[i], 100, e.a * e.n + (i - 1) * (e.b - e.a), e.n)
                                               /\ Near(e.r[e.n + i], 100, e.a * e.n + i * (e.b - e.a), e.n)
      [] e.op = "edges" -> IF Len(e.v) < 2 THEN e.ok # 1
                           ELSE Is(e, <<2, Len(e.v) - 1>>, SubSeq(e.v, 1, Len(e.v) - 1) \o SubSeq(e.v, 2, Len(e.v)))
      \* values are recorded in halves
      [] e.op = "centers" -> IF Len(e.v) < 2 THEN e.ok # 1
                             ELSE LET n == Len(e.v)
                                      lo == [i \in 1..n |-> IF i = 1 THEN 3 * e.v[1] - e.v[2] ELSE e.v[i - 1] + e.v[i]]
                                      up == [i \in 1..n |-> IF i = n THEN 3 * e.v[n] - e.v[n - 1] ELSE e.v[i] + e.v[i + 1]]
                                  IN Is(e, <<2, n>>, lo \o up)
      [] e.op = "inbin" -> IF Len(e.b) # 2 THEN e.ok # 1
                           ELSE Is(e, e.d, [i \in 1..Len(e.v) |-> IF InBin(e.v[i], e.b) THEN 1 ELSE 0])
      [] e.op = "inbink" -> IF ~BinsOk(e) \/ e.k >= e.bd[2] THEN e.ok # 1
                            ELSE Is(e, e.d, [i \in 1..Len(e.v) |-> IF InBin(e.v[i], B(e.b)[e.k + 1]) THEN 1 ELSE 0])
      [] e.op = "open" -> IF ~BinsOk(e) \/ e.k >= e.bd[2] THEN e.ok # 1
                          ELSE Is(e, e.d, [i \in 1..Len(e.v) |-> IF InOpen(e.v[i], B(e.b), e.k + 1) THEN 1 ELSE 0])
      [] e.op = "center" -> IF ~BinsOk(e) THEN e.ok # 1 ELSE Is(e, <<e.bd[2]>>, [k \in 1..e.bd[2] |-> B(e.b)[k][1] + B(e.b)[k][2]])
      [] e.op = "width" -> IF ~BinsOk(e) THEN e.ok # 1 ELSE Is(e, <<e.bd[2]>>, [k \in 1..e.bd[2] |-> B(e.b)[k][2] - B(e.b)[k][1]])
      [] e.op = "hist" -> IF ~BinsOk(e) THEN e.ok # 1 ELSE Is(e, <<e.bd[2]>>, Hist1(e.v, B(e.b)))
      [] e.op = "histw" -> IF ~BinsOk(e) \/ e.d # e.dw THEN e.ok # 1 ELSE Is(e, <<e.bd[2]>>, HistW(e.v, e.w, B(e.b)))
      [] e.op = "histf" -> IF ~BinsOk(e) THEN e.ok # 1 ELSE e.ok = 1 /\ CallsOk(e.r, e.bd[2], LAMBDA k : IdsIn(e.v, B(e.b)[k]))
      [] e.op = "hist2" -> IF e.d # e.dw THEN e.ok # 1 ELSE Is(e, <<e.bd[2], e.cd[2]>>, Hist2(e.v, e.w, B(e.b), B(e.b2)))
      [] e.op = "hist2f" -> IF e.d # e.dw THEN e.ok # 1
                            ELSE e.ok = 1 /\ CallsOk(e.r, e.bd[2] * e.cd[2], LAMBDA k : Ids2(e.v, e.w, B(e.b)[((k - 1) \div e.cd[2]) + 1], B(e.b2)[((k - 1) % e.cd[2]) + 1]))
      [] e.op = "cumul" -> Is(e, <<Len(e.v)>>, Cumul(e.v))
      [] e.op = "cumulrev" -> Is(e, <<Len(e.v)>>, CumulRev(e.v))
      [] e.op = "rgen" -> /\ e.ok = 1 /\ e.rd = <<e.n>>
                          /\ \A k \in 1..e.n : IF e.n = 1 THEN e.r[1] = 100 * e.a ELSE Near(e.r[k], 100, e.a * (e.n - 1) + (k - 1) * (e.b - e.a), e.n - 1)
      \* powers of ten: from a to a * 10^m in n points, m a multiple of n - 1
      [] e.op = "rgenlog" -> /\ e.ok = 1 /\ e.rd = <<e.n>>
                             /\ \A k \in 1..e.n : LET x == e.a * (10 ^ (IF e.n = 1 THEN 0 ELSE ((k - 1) * e.m) \div (e.n - 1))) IN Abs(e.r[k] - 10 * x) <= 1 + x \div 100000
      \* steps (recorded in quarters): both ends, steps of s from the first, the last one between half and twice the step
      [] e.op = "rgenstep" ->
            IF e.s <= 0 THEN e.ok # 1
            ELSE LET n == Len(e.r) sg == IF e.b >= e.a THEN 1 ELSE -1 D == Abs(e.b - e.a) IN
                 /\ e.ok = 1 /\ e.rd = <<n>> /\ n >= 1 /\ e.r[1] = e.a /\ e.r[n] = e.b
                 /\ \A k \in 2..(n - 1) : e.r[k] = e.a + sg * (k - 1) * e.s /\ (k - 1) * e.s < D
                 /\ IF D = 0 THEN n = 1 ELSE (n >= 2 /\ D - (n - 2) * e.s < 2 * e.s)
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
