----------------------------- MODULE RearrTrace -----------------------------
EXTENDS Rearr, TraceLib
X(e) == Vc(e.d, e.v)
Y(e) == Vc(e.d2, e.v2)
Is(e, x) == e.ok = 1 /\ e.rd = x.d /\ e.r = x.v
Kept(e) == (Has(e, "after") => e.after = e.v) /\ (Has(e, "after2") => e.after2 = e.v2)
Accept(e) ==
    (IF e.op = "crash" THEN FALSE ELSE Kept(e)) /\
    CASE e.op = "reverse" -> Is(e, Vc(e.d, Reverse(e.v)))
      [] e.op = "shift" -> Is(e, Vc(e.d, IF Len(e.v) = 0 THEN <<>> ELSE Shifted(e.v, e.n)))
      [] e.op = "transpose" -> Is(e, Transposed(X(e)))
      [] e.op = "replicate" -> Is(e, Replicated(X(e), e.e))
      [] e.op = "append" -> IF Len(e.v) = 0 THEN Is(e, Y(e)) ELSE IF Len(e.v2) = 0 THEN Is(e, X(e))
                            ELSE IF Fits(X(e), Y(e), e.n) THEN Is(e, Joined(X(e), Y(e), e.n)) ELSE e.ok # 1
      [] e.op = "prepend" -> IF Len(e.v) = 0 THEN Is(e, Y(e)) ELSE IF Len(e.v2) = 0 THEN Is(e, X(e))
                            ELSE IF Fits(X(e), Y(e), e.n) THEN Is(e, Joined(Y(e), X(e), e.n)) ELSE e.ok # 1
      [] e.op = "remove" -> IF Removable(X(e), e.ids) THEN Is(e, Removed(X(e), e.ids)) ELSE e.ok # 1
      [] e.op = "flatten" -> Is(e, Vc(<<Len(e.v)>>, e.v))
      [] e.op = "reform" -> IF Prod(e.e) = Len(e.v) THEN Is(e, Vc(e.e, e.v)) ELSE e.ok # 1
      [] e.op = "vwrite" -> e.ok = 1 /\ e.r = Written(e.v, e.ids, e.w)
      [] e.op = "indgen" -> Is(e, Vc(e.d, Iota(Prod(e.d))))
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
