----------------------------- MODULE VecOpsTrace -----------------------------
EXTENDS VecOps, TraceLib
\* operands that are not temporaries keep their value ("pa"/"pb": value afterwards)
Kept(e) == (Has(e, "pa") => e.pa = e.A.v) /\ (Has(e, "pb") => e.pb = e.B.v)
Accept(e) ==
    CASE e.op = "bin" -> /\ Kept(e)
                         /\ IF Compatible(e.A, e.B)
                            THEN e.ok = 1 /\ LET r == Apply(e.o, e.A, e.B) IN e.rd = r.d /\ e.r = r.v
                            ELSE e.ok # 1
      [] e.op = "frac" -> /\ Kept(e)
                          /\ IF Compatible(e.A, e.B) THEN e.ok = 1 /\ e.rd = Dims(e.A, e.B) /\ e.r = Elem2(LAMBDA a, b : Frac(e.o, a, b), e.A, e.B) ELSE e.ok # 1
      [] e.op = "inq" -> IF Compatible(e.A, e.B) THEN e.ok = 1 /\ e.r = Elem2(LAMBDA a, b : InPlace(e.o, e.int, a, b), e.A, e.B) ELSE e.ok # 1
      [] e.op = "un" -> Kept(e) /\ e.ok = 1 /\ e.rd = e.A.d /\ e.r = Map(LAMBDA a : Un(e.o, a), e.A.v)
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
