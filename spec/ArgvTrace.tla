------------------------------ MODULE ArgvTrace ------------------------------
EXTENDS Argv, TraceLib
VARIABLES s, bad
Start == [a |-> <<<<>>, <<>>>>, loose |-> FALSE]
Judge(b, st) == [ok |-> b, s |-> st]
\* recorded values
El(k, j) == CASE k = "s" -> j
              [] k = "b" -> (IF j.ds = <<>> THEN 0 ELSE 1)
              [] k = "i" -> [neg |-> j.neg = 1 /\ j.ds # <<>>, ds |-> StripL(j.ds)]
              [] k = "d" -> LET v == Norm(j.neg = 1, j.ds, j.x) IN [v EXCEPT !.neg = @ /\ v.ds # <<>>]
ValsOf(x, l) == [j \in 1..Len(l) |-> El(x.k, l[j])]
Before(e) == [j \in 1..Len(e.vs) |-> ValsOf(e.vs[j], e.vs[j].def)]
After(e) == [j \in 1..Len(e.vs) |-> ValsOf(e.vs[j], e.r[j])]
Next1(st, e) ==
    CASE e.op = "begin" -> Judge(TRUE, Start)
      [] e.op = "new" -> Judge(e.ok = 1, [st EXCEPT !.a[e.x + 1] = Given([j \in 1..Len(e.a) |-> IF e.argc = 1 THEN TrimOf(e.a[j], Sp) ELSE e.a[j]])])
      [] e.op = "read" -> LET q == ReadVars(st.a[e.x + 1], e.vs, Before(e)) IN
            Judge(e.ok = 1 /\ (q.loose \/ st.loose \/ After(e) = q.vs), [st EXCEPT !.a[e.x + 1] = q.args, !.loose = @ \/ q.loose])
      [] e.op = "write" -> Judge(e.ok = 1 /\ After(e) = Before(e), [st EXCEPT !.a[e.x + 1] = WriteVars(@, e.vs, Before(e))])
      [] e.op = "merge" -> Judge(e.ok = 1, [st EXCEPT !.a[e.x + 1] = @ \o st.a[e.y + 1]])
      [] e.op = "serialize" -> Judge(e.ok = 1 /\ (st.loose \/ e.r = Text(st.a[e.x + 1])), st)
      [] e.op = "end" -> Judge(e.ok = 1 /\ (st.loose \/ LET u == Unknown(st.a[e.x + 1]) IN e.r = [j \in 1..Len(u) |-> u[j].t]), [st EXCEPT !.a[e.x + 1] = <<>>])
      [] e.op = "readargs" -> LET q == ReadVars(Given([j \in 1..Len(e.a) |-> TrimOf(e.a[j], Sp)]), e.vs, Before(e)) u == Unknown(q.args) IN
            Judge(e.ok = 1 /\ (q.loose \/ (After(e) = q.vs /\ e.w = [j \in 1..Len(u) |-> u[j].t])), st)
      [] e.op = "few" -> Judge(e.ok # 1, st)
      [] e.op = "cmd" -> Judge(e.ok = 1 /\ Words(e.r) = e.a, st)
      [] e.op = "save" -> Judge(e.ok = 1 /\ RTrimOf(e.r, {10}) = JoinC(<<e.p>> \o e.a, SPACE), st)
      [] e.op = "env" -> LET q == IF e.set = 1 THEN FromText(e.k, e.t) ELSE NoVal IN
            Judge(e.ok = 1 /\ El(e.k, e.r) = (IF q.ok THEN q.v ELSE El(e.k, e.def)), st)
      [] e.op = "spawn" -> Judge(e.ok = 1 /\ (e.r = 1) = (e.code = 0) /\ e.ran = 1, st)
      [] OTHER -> Judge(FALSE, st)
Init == pos = 0 /\ s = Start /\ bad = FALSE
Next == /\ pos < NLines
        /\ LET e == Trace[pos + 1] new == e.op = "begin" j == IF bad /\ ~new THEN [ok |-> TRUE, s |-> s] ELSE Next1(s, e) IN
           /\ IF j.ok THEN TRUE ELSE Reject(pos + 1)
           /\ s' = j.s /\ bad' = (IF new THEN FALSE ELSE bad \/ ~j.ok)
        /\ pos' = pos + 1 /\ IF pos + 1 = NLines THEN Done(NLines) ELSE TRUE
TraceSpec == Init /\ [][Next]_<<pos, s, bad>>
===============================================================================
