------------------------------ MODULE ConvTrace ------------------------------
EXTENDS Conv, TraceLib
V(w) == [neg |-> w.neg = 1, ds |-> w.ds, x |-> w.x]
TextsOf(e, w) == CASE e.mode = "g" -> GenTexts(V(w), e.p) [] e.mode = "e" -> SciTexts(V(w), e.p) [] e.mode = "f" -> FixedTexts(V(w), e.p)
RECURSIVE Lists(_, _)
Lists(e, ws) == IF ws = <<>> THEN {<<>>} ELSE {<<t>> \o l : t \in TextsOf(e, ws[1]), l \in Lists(e, Tail(ws))}
\* one string read as a value of the type
ReadOk(e, s, ok, r) ==
    IF e.kind = "int" THEN
        LET q == ReadInt(s) fits == q.ok /\ Leq(q.ds, IF q.neg THEN e.mn ELSE e.mx) IN
        IF fits THEN ok = 1 /\ r.k = "n" /\ r.ds = q.ds /\ (r.neg = 1 <=> (q.neg /\ q.ds # <<>>)) ELSE ok = 0
    ELSE LET q == ReadReal(s) u == [k \in 1..Len(s) |-> Up(s[k])] IN
        IF u \in NANS THEN ok = 1 /\ r.k = "nan"
        ELSE IF u \in PINFS THEN ok = 1 /\ r.k = "inf" ELSE IF u \in NINFS THEN ok = 1 /\ r.k = "ninf"
        ELSE IF ~q.ok \/ q.v.x > e.xmax THEN ok = 0
        ELSE ok = 1 /\ r.k = "n" /\ LET w == Norm(r.neg = 1, r.ds, r.x) IN w.ds = q.v.ds /\ w.x = q.v.x /\ (q.v.ds # <<>> => w.neg = q.v.neg)
Accept(e) ==
    CASE e.op = "itext" -> e.ok = 1 /\ e.r = IntText(e.n)
      [] e.op = "ilist" -> e.ok = 1 /\ e.r = Braced([k \in 1..Len(e.n) |-> IntText(e.n[k])])
      [] e.op = "ivec" -> e.ok = 1 /\ e.rd = e.d /\ e.r = [k \in 1..Len(e.n) |-> IntText(e.n[k])]
      [] e.op = "slist" -> e.ok = 1 /\ e.r = Braced(e.n)
      [] e.op = "ftext" -> e.ok = 1 /\ e.r \in TextsOf(e, e.v[1])
      [] e.op = "flist" -> e.ok = 1 /\ e.r \in {Braced(l) : l \in Lists(e, e.v)}
      [] e.op = "fvec" -> e.ok = 1 /\ e.rd = e.d /\ e.r \in Lists(e, e.v)
      [] e.op = "special" -> e.ok = 1 /\ [k \in 1..Len(e.r) |-> Up(e.r[k])] \in (CASE e.k = "nan" -> NANS [] e.k = "inf" -> PINFS [] e.k = "ninf" -> NINFS)
      [] e.op = "read" -> e.ok = 1 /\ ReadOk(e, e.s, e.b, e.r)
      [] e.op = "readv" -> e.ok = 1 /\ e.bd = e.d /\ e.rd = e.d /\ Len(e.b) = Len(e.s) /\ Len(e.r) = Len(e.s)
                           /\ \A k \in 1..Len(e.s) : ReadOk(e, e.s[k], e.b[k], e.r[k])
      [] e.op = "trip" -> e.ok = 1 /\ e.b = 1 /\ e.r = e.v
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
