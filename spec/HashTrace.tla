----------------------------- MODULE HashTrace ------------------------------
EXTENDS Hash, TraceLib
Accept(e) == CASE
    e.op = "ints" -> e.ok = 1 /\ e.r = Sha(Text(e.v, e.t))
 \* a list of argument lists: equal hashes if and only if equal arguments
 [] e.op = "many" -> /\ e.ok = 1 /\ Len(e.r) = Len(e.a)
                     /\ \A i \in 1..Len(e.r) : Len(e.r[i]) = 40 /\ \A k \in 1..40 : e.r[i][k] \in 0..15
                     /\ \A i, j \in 1..Len(e.r) : (e.r[i] = e.r[j]) = (e.a[i] = e.a[j])
 [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
