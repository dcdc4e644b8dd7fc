--------------------------- MODULE VecAssignTrace ---------------------------
EXTENDS VecAssign, TraceLib
Accept(e) ==
    CASE e.op = "asg" ->
         LET root == [d |-> e.d, v |-> e.v] IN
         IF Allowed(root, e.o, e.L, e.R)
         THEN e.ok = 1 /\ LET a == Assign(root, e.o, e.L, e.R) IN e.ad = a.d /\ e.av = a.v
         ELSE e.ok # 1 /\ e.ad = e.d /\ e.av = e.v
         \* a view follows later changes of the viewed vector and never owns data
      [] e.op = "follow" -> e.r = [i \in 1..Len(e.p) |-> e.v[e.p[i] + 1]]
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
