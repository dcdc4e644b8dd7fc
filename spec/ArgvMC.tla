-------------------------------- MODULE ArgvMC --------------------------------
(* All short lists of arguments, read by variables n and nn of each kind.      *)
EXTENDS Argv
CONSTANTS MaxLen
VARIABLES ts
n == <<110>>
nn == <<110, 110>>
Pool == {n, <<45>> \o n, <<45, 45>> \o n, nn,
         n \o <<EQ, 49>>, n \o <<EQ, 50>>, n \o <<EQ, 120>>, <<45, 45>> \o n \o <<EQ, 50>>, n \o <<SPACE, EQ, SPACE, 39, 50, 39>>,
         n \o <<EQ, 91, 49, 44, 50, 93>>, n \o <<EQ, 91, 93>>, n \o <<EQ>>, nn \o <<EQ, 110, 61, 50>>, nn \o <<EQ, 51>>, <<EQ>>, <<45>>}
Init == ts = <<>>
Next == Len(ts) < MaxLen /\ \E a \in Pool : ts' = Append(ts, a)
Spec == Init /\ [][Next]_ts
Vars == {[n |-> m, k |-> k, w |-> w] : m \in {n, nn}, k \in {"i", "s", "d", "b"}, w \in {0, 1}}
Def(x) == <<FromText(x.k, <<48>>).v>>
R(x) == ReadVar(Given(ts), x, Def(x))
\* the written form of a variable gives it back
RoundTrip == \A x \in Vars : LET v == R(x).v q == ReadVar(WriteVars(<<>>, <<x>>, <<v>>), x, Def(x)) IN
    (x.w = 0 \/ x.k # "s" \/ \A j \in 1..Len(v) : v[j] # <<>> /\ FirstOf(v[j], COMMA) = 0) => (q.v = v /\ Unknown(q.args) = <<>>)
\* reading again changes nothing
Stable == \A x \in Vars : LET a == R(x) b == ReadVar(a.args, x, a.v) IN ~a.loose => (b.v = a.v /\ b.args = a.args)
\* a variable is independent of arguments of other names
Independent == \A x \in Vars : R(x).v = ReadVar(Given(SelectSeq(ts, LAMBDA t : Parse(t, x.n).m)), x, Def(x)).v
\* arguments are never claimed by two names, and those that nobody claims remain
Owners == \A i \in 1..Len(ts) : ~(Parse(ts[i], n).m /\ Parse(ts[i], nn).m)
Remain == \A x, y \in {v \in Vars : v.w = 0} : LET q == ReadVars(Given(ts), <<x, y>>, <<Def(x), Def(y)>>) IN
    \A i \in 1..Len(ts) : q.args[i].t = ts[i] /\ (q.args[i].r <=> Parse(ts[i], x.n).m \/ Parse(ts[i], y.n).m)
Dashes == \A i \in 1..Len(ts) : (ts[i] # <<>> /\ ts[i][1] # MINUS) =>
    \A x \in Vars : Parse(<<45, 45>> \o ts[i], x.n) = Parse(ts[i], x.n) /\ Parse(<<45>> \o ts[i], x.n) = Parse(ts[i], x.n)
FlagIsOne == \A x \in Vars : Told(x, [flag |-> TRUE, v |-> <<>>]) = Told(x, [flag |-> FALSE, v |-> <<49>>])
===============================================================================
