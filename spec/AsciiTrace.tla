----------------------------- MODULE AsciiTrace -----------------------------
EXTENDS Ascii, TraceLib
\* results of a read: one entry per argument: [d: dims, v: flat values] ("g": a list of such, one per member, ignored ones empty)
RECURSIVE CheckArgs(_, _, _, _, _, _)
CheckArgs(ws, o, as, rs, k, base) ==
    IF k > Len(as) THEN TRUE
    ELSE LET a == as[k] r == rs[k] n == Len(ws) IN
        CASE a.t = "v" -> /\ r.d = <<n>> /\ Len(r.v) = n /\ \A i \in 1..n : SameCell(a.k, ws[i][base + 1], r.v[i])
                          /\ CheckArgs(ws, o, as, rs, k + 1, base + 1)
          [] a.t = "x" -> /\ (n = 1 => SameCell(a.k, ws[1][base + 1], r.v[1]))
                          /\ CheckArgs(ws, o, as, rs, k + 1, base + 1)
          [] a.t = "_" -> CheckArgs(ws, o, as, rs, k + 1, base + 1)
          [] a.t = "g" -> LET m == Len(a.of) IN
                          /\ \A q \in 1..m : a.of[q] # "_" =>
                                /\ r[q].d = <<n, a.n>> /\ Len(r[q].v) = n * a.n
                                /\ \A i \in 1..n, g \in 1..a.n : SameCell(a.of[q], ws[i][base + (g - 1) * m + q], r[q].v[(i - 1) * a.n + g])
                          /\ CheckArgs(ws, o, as, rs, k + 1, base + a.n * m)
Accept(e) ==
    CASE e.op = "write" -> LET cs == Flatten(e.a) IN
            IF WriteOk(e.o, cs) THEN e.ok = 1 /\ e.r = Written(e.o, cs) ELSE e.ok # 1
      [] e.op = "read" -> LET ls == DataLines(e.f, e.o) IN
            IF ReadPossible(ls, e.o, e.a) THEN e.ok = 1 /\ CheckArgs([i \in 1..Len(ls) |-> Fields(ls[i], e.o)], e.o, e.a, e.r, 1, 0)
            ELSE e.ok = 0
      [] e.op = "nofile" -> e.ok = 0
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
