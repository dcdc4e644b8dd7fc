---------------------------- MODULE VecIndexTrace ----------------------------
EXTENDS VecIndex, TraceLib

\* an invalid index next to an axis that selects nothing may or may not be noticed
Nothing(d, s) == ~Valid(d, s) /\ \E k \in 1..Len(d) : ValidSel(s[k], d[k]) /\ Pos(s[k], d[k]) = <<>>

\* outcome of an access: x the accessed vector, s the selectors, "ok" 1 = returned
Judge(e, x, s) ==
    IF Unspec(x.d, s) \/ Nothing(x.d, s) THEN TRUE
    ELSE IF ~Valid(x.d, s) THEN e.ok # 1
    ELSE /\ e.ok = 1
         /\ LET r == Access(x, s) IN e.rd = r.d /\ e.r = r.v

IsIdentity(e) == e.v = <<>>
Vec(e) == [d |-> e.d, v |-> IF Has(e, "v") THEN e.v ELSE Iota(Prod(e.d))]

Accept(e) ==
    CASE e.op = "at"   -> Judge(e, Vec(e), e.s)                    \* v(s1,s2,...)
      [] e.op = "flat" -> Judge(e, [d |-> <<Prod(e.d)>>, v |-> Vec(e).v], e.s) \* v[s]
         \* v.safe(...): same result as the checked access
      [] e.op = "safe" -> Valid(e.d, e.s) => Judge(e, Vec(e), e.s)
         \* v.stride(i,_,k): the elements of one line, in order
      [] e.op = "stride" -> IF Unspec(e.d, e.s) \/ Nothing(e.d, e.s) THEN TRUE
                            ELSE IF ~Valid(e.d, e.s) THEN e.ok # 1
                            ELSE e.ok = 1 /\ e.r = Access(Vec(e), e.s).v
         \* writing through an access changes exactly the selected elements
      [] e.op = "set"  -> IF Unspec(e.d, e.s) \/ Nothing(e.d, e.s) THEN TRUE
                          ELSE IF ~Valid(e.d, e.s) THEN e.ok # 1 /\ e.r = Vec(e).v
                          ELSE LET P == Range1(ResultPos(e.d, e.s))
                               IN e.ok = 1 /\ Len(e.r) = Len(Vec(e).v) /\ \A p \in 1..Len(e.r) :
                                      e.r[p] = IF (p - 1) \in P THEN e.x ELSE Vec(e).v[p]
      [] OTHER -> FALSE

TraceSpec == Stateless(Accept)
=============================================================================
