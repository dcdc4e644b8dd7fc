------------------------------- MODULE HdrTrace -------------------------------
EXTENDS Hdr, TraceLib
VARIABLES s, bad
Judge(b, st) == [ok |-> b, s |-> st]
Num(e) == IF e.k = "i" THEN ToText("i", [neg |-> e.v.neg = 1 /\ e.v.ds # <<>>, ds |-> StripL(e.v.ds)])
          ELSE IF e.k = "d" THEN LET v == Norm(e.v.neg = 1, e.v.ds, e.v.x) IN GenOf([v EXCEPT !.neg = @ /\ v.ds # <<>>], 16) ELSE e.v
El(k, j) == CASE k = "s" -> j [] k = "i" -> [neg |-> j.neg = 1 /\ j.ds # <<>>, ds |-> StripL(j.ds)]
              [] k = "d" -> LET v == Norm(j.neg = 1, j.ds, j.x) IN [v EXCEPT !.neg = @ /\ v.ds # <<>>]
\* same real number to the 12 digits recorded
Same12(v, w) == v.neg = w.neg /\ (v = w \/ (v.ds # <<>> /\ w.ds # <<>> /\ Len(v.ds) > 12
    /\ \E d \in RoundAt(v, 12 - v.x) : Norm(v.neg, d, v.x + Len(d) - 12) = w))
Keys(r) == [k \in 1..Len(r) |-> Kw(r[k].key, r[k].value, r[k].comment, r[k].no)]
Next1(cs, e) ==
    CASE e.op = "begin" -> Judge(e.ok = 1, CardsOf(e.h))
      [] e.op = "get" -> IF ~Has(cs, e.key) THEN Judge(e.ok = 1 /\ e.b = 0, cs)
                         ELSE LET f == ValueOf(cs[Where(cs, e.key)]) IN
                              IF e.k = "s" THEN Judge(e.ok = 1 /\ e.b = 1 /\ RTrimOf(e.r, {32}) = Content(f.v), cs)
                              ELSE LET q == FromText(e.k, f.v) IN Judge(e.ok = 1 /\ IF q.ok THEN e.b = 1 /\ (IF e.k = "d" THEN Same12(q.v, El("d", e.r)) ELSE El(e.k, e.r) = q.v) ELSE e.b = 0, cs)
      [] e.op = "set" -> LET val == Num(e) IN
            IF ~Fits(e.key, val, e.com) THEN Judge(e.ok = 1 /\ e.b = 0 /\ e.h = Flat(cs), cs)
            \* reals are written with as many digits as needed
            ELSE IF e.k = "d" /\ e.ok = 1 /\ e.b = 0 THEN Judge(e.h = Flat(cs) /\ ~Fits(e.key, Pad(val, 24), e.com), cs)
            ELSE IF e.ok # 1 \/ e.b # 1 \/ Len(e.h) % W # 0 THEN Judge(FALSE, cs)
            ELSE LET n == CardsOf(e.h) has == Has(cs, e.key)
                     i == IF has THEN Where(cs, e.key) ELSE IF cs # <<>> /\ cs[Len(cs)] = END_ THEN Len(cs) ELSE Len(cs) + 1 IN
                 IF i > Len(n) THEN Judge(FALSE, cs)
                 ELSE LET q == FromText("d", ValueOf(n[i]).v) IN
                 Judge(n = SetCards(cs, e.key, n[i]) /\ CardOk(n[i], e.key, IF e.k = "d" THEN ValueOf(n[i]).v ELSE val, e.com, IF has THEN cs[i] ELSE <<>>)
                       /\ (e.k = "d" => (q.ok /\ Same12(q.v, El("d", e.v)))), n)
      [] e.op = "parse" -> Judge(e.ok = 1 /\ Keys(e.r) = ParseH(cs), cs)
      \* what is serialised says the same
      [] e.op = "serial" -> LET k == ParseH(cs) IN
            Judge(e.ok = 1 /\ Len(e.r) % W = 0 /\ Len(e.r) \div W = Len(k)
                  /\ LET n == CardsOf(e.r) q == ParseH(n) IN \A j \in 1..Len(k) : Room(k[j]) > W \/ Card1(n[j]) = k[j], cs)
      [] e.op = "wcs" -> Judge(e.ok = 1 /\ e.r = Flat(WcsOnly(cs)), cs)
      [] OTHER -> Judge(FALSE, cs)
Init == pos = 0 /\ s = <<>> /\ bad = FALSE
Next == /\ pos < NLines
        /\ LET e == Trace[pos + 1] new == e.op = "begin" j == IF bad /\ ~new THEN [ok |-> TRUE, s |-> s] ELSE Next1(s, e) IN
           /\ IF j.ok THEN TRUE ELSE Reject(pos + 1)
           /\ s' = j.s /\ bad' = (IF new THEN FALSE ELSE bad \/ ~j.ok)
        /\ pos' = pos + 1 /\ IF pos + 1 = NLines THEN Done(NLines) ELSE TRUE
TraceSpec == Init /\ [][Next]_<<pos, s, bad>>
===============================================================================
