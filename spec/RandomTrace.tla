---------------------------- MODULE RandomTrace -----------------------------
EXTENDS Random, TraceLib
RECURSIVE Prod(_)
Prod(d) == IF d = <<>> THEN 1 ELSE d[1] * Prod(Tail(d))
\* d: dimensions asked, g: dimensions obtained
Shape(e) == e.g = e.d /\ Len(e.r) = Prod(e.d)
Draws(e, w) == Follows(e.r, w) /\ Mixed(e.r, w)
Accept(e) == CASE
    e.op = "int" -> e.ok = 1 /\ Shape(e) /\ Draws([r |-> [i \in 1..Len(e.r) |-> e.r[i] - e.lo + 1]], Flat(e.hi - e.lo + 1))
 \* into e.k equal parts (or 0 if outside)
 [] e.op = "part" -> e.ok = 1 /\ Shape(e) /\ Draws(e, Flat(e.k))
 [] e.op = "normal" -> e.ok = 1 /\ Shape(e) /\ Draws(e, Normal)
 [] e.op = "pdf" -> IF Len(e.x) # Len(e.y) THEN e.ok = 0 ELSE e.ok = 1 /\ Shape(e) /\ Draws(e, Halves(e.x, e.y))
 [] e.op = "weights" -> e.ok = 1 /\ Shape(e) /\ Draws([r |-> [i \in 1..Len(e.r) |-> e.r[i] + 1]], e.w)
 \* p in tenths; p2 per element
 [] e.op = "coin" -> e.ok = 1 /\ Shape(e) /\ Draws([r |-> [i \in 1..Len(e.r) |-> 2 - e.r[i]]], <<e.p, 10 - e.p>>)
 [] e.op = "coins" -> /\ e.ok = 1 /\ Shape(e) /\ Len(e.p) = Len(e.r)
                      /\ \A p \in 0..10 : LET I == {i \in 1..Len(e.p) : e.p[i] = p} c == Cardinality({i \in I : e.r[i] = 1}) IN
                            Near(c, Cardinality(I), p, 10) /\ (p = 0 => c = 0) /\ (p = 10 => c = Cardinality(I))
 [] e.op = "shuffle" -> /\ e.ok = 1 /\ e.g = e.d /\ SamePerm(e.v, e.r)
                        /\ (IF e.inpl = 1 THEN e.after = e.r ELSE e.after = e.v)
                        /\ e.rest = 1       \* the rest of a vector shuffled in part
 \* orders obtained of three elements
 [] e.op = "orders" -> e.ok = 1 /\ Follows(e.r, Flat(6))
 \* the same calls from equal seeds, then from another seed; and twice in a row
 [] e.op = "again" -> e.ok = 1 /\ e.same = 1 /\ (e.big = 1 => e.other = 1 /\ e.next = 1)
 [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
