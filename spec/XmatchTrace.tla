----------------------------- MODULE XmatchTrace -----------------------------
EXTENDS Xmatch, TraceLib
Mat(e) == IF Has(e, "D") THEN e.D ELSE SqMatrix(e.x1, e.y1, e.x2, e.y2)
Match(e) ==
    LET D == Mat(e) n1 == e.n1 n2 == e.n2 IN
    /\ Len(e.id) = e.nth * n1 /\ Len(e.d) = e.nth * n1
    /\ e.idd = <<e.nth, n1>>
    /\ \A i \in 1..n1 : Nearest([k \in 1..e.nth |-> e.id[(k - 1) * n1 + i]], [k \in 1..e.nth |-> e.d[(k - 1) * n1 + i]],
                                D[i], Avail(i, n2, e.self), e.tol)
    /\ (e.self = 0 /\ e.nomirror = 0) =>
          /\ Len(e.rid) = n2 /\ Len(e.rd) = n2
          /\ \A j \in 1..n2 : Nearest(<<e.rid[j]>>, <<e.rd[j]>>, Column(D, j), 0..(n1 - 1), e.tol)
Accept(e) ==
    IF e.op = "crash" THEN FALSE
    ELSE CASE e.op = "match" -> e.ok = 1 /\ Match(e)
           [] e.op = "bad" -> e.ok # 1
           [] e.op = "clean" -> e.ok = 1 /\ e.id1 = Best(e.id, e.rid) /\ e.lost = Lost(e.id, e.rid)
                                /\ e.id2 = [k \in 1..Len(e.id1) |-> e.id[e.id1[k] + 1]]
           [] e.op = "saved" -> e.ok = 1 /\ e.r = e.a
           [] e.op = "qdist" -> e.ok = 1 /\ Len(e.r) = e.n1 * e.n1
                                /\ \A i \in 1..e.n1 : \A j \in 1..(i - 1) : AbsD(e.r[(i - 1) * e.n1 + j], e.D[i][j]) <= e.tol
           [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
