----------------------------- MODULE OrderTrace -----------------------------
EXTENDS Order, TraceLib
\* NaN comes last in a decreasing order too
Gt(a, b) == IF a = VNAN THEN FALSE ELSE IF b = VNAN THEN TRUE ELSE Lt(b, a)
List(e, r) == e.ok = 1 /\ e.r = r /\ (Has(e, "rd") => e.rd = <<Len(r)>>)
Accept(e) ==
    CASE e.op = "sort" -> e.ok = 1 /\ IsSort(e.v, e.r, Lt) /\ e.rd = <<Len(e.v)>>
      [] e.op = "sortdesc" -> e.ok = 1 /\ IsSort(e.v, e.r, Gt) /\ e.rd = <<Len(e.v)>>
      [] e.op = "issorted" -> List(e, <<IF Sorted(e.v, Lt) THEN 1 ELSE 0>>)
      [] e.op = "inplace" -> e.ok = 1 /\ Sorted(e.r, Lt) /\ IsPermOf(e.r, e.v) /\ e.rd = e.d
      [] e.op = "inplacedesc" -> e.ok = 1 /\ Sorted(e.r, Gt) /\ IsPermOf(e.r, e.v) /\ e.rd = e.d
      [] e.op \in {"uids", "uidss"} -> List(e, UIds(e.v))
      [] e.op = "uvals" -> List(e, Values(e.v))
      [] e.op = "match" -> e.ok = 1 /\ e.r = MatchR(e.v, e.w) /\ e.r2 = MatchR2(e.v, e.w) /\ e.rd = <<Len(e.r)>> /\ e.rd2 = <<Len(e.r2)>>
      [] e.op = "anyof" -> e.ok = 1 /\ e.rd = e.d /\ e.r = AnyOf(e.v, e.w)
      [] e.op = "any1" -> List(e, AnyOf(<<e.x>>, e.w))
      [] e.op = "inter" -> e.ok = 1 /\ MultiSorted(e.v, e.w, Min2, e.r) /\ e.rd = <<Len(e.r)>>
      [] e.op = "union" -> e.ok = 1 /\ MultiSorted(e.v, e.w, Max2, e.r) /\ e.rd = <<Len(e.r)>>
      [] e.op = "lower" -> List(e, <<Lower(e.v, e.a)>>)
      [] e.op = "upper" -> List(e, <<Upper(e.v, e.a)>>)
      [] e.op = "bounds" -> List(e, <<Lower(e.v, e.a), Upper(e.v, e.a)>>)
      [] e.op = "bounds2" -> List(e, <<Lower(e.v, e.a), Upper(e.v, e.b)>>)
      [] e.op = "equal" -> List(e, EqRange(e.v, e.a))
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
