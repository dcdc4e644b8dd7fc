--------------------------------- MODULE Argv ---------------------------------
(* Program arguments: a list of texts, some of them claimed by a variable.    *)
(* A variable has a name, a kind (i, d, b, s), may be a vector (w), and holds *)
(* a sequence of values (one for scalars).                                    *)
EXTENDS Conv
EQ == 61
COMMA == 44
SPACE == 32
Quote == {39, 34}
Sp == {32, 9}
RECURSIVE LTrimOf(_, _)
LTrimOf(s, C) == IF s # <<>> /\ s[1] \in C THEN LTrimOf(Tail(s), C) ELSE s
RECURSIVE RTrimOf(_, _)
RTrimOf(s, C) == IF s # <<>> /\ s[Len(s)] \in C THEN RTrimOf(SubSeq(s, 1, Len(s) - 1), C) ELSE s
TrimOf(s, C) == LTrimOf(RTrimOf(s, C), C)
FirstOf(s, c) == LET P == {i \in 1..Len(s) : s[i] = c} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
RECURSIVE SplitC(_, _)
SplitC(s, c) == LET p == FirstOf(s, c) IN IF p = 0 THEN <<s>> ELSE <<SubSeq(s, 1, p - 1)>> \o SplitC(SubSeq(s, p + 1, Len(s)), c)
RECURSIVE JoinC(_, _)
JoinC(v, c) == IF v = <<>> THEN <<>> ELSE IF Len(v) = 1 THEN v[1] ELSE v[1] \o <<c>> \o JoinC(Tail(v), c)
\* "name", "-name", "--name"
NoDash(s) == LET a == IF s # <<>> /\ s[1] = MINUS THEN Tail(s) ELSE s IN IF a # s /\ a # <<>> /\ a[1] = MINUS THEN Tail(a) ELSE a
Parse(s, name) == LET p == FirstOf(s, EQ) IN
    IF p = 0 THEN [m |-> NoDash(s) = name, flag |-> TRUE, v |-> <<>>]
    ELSE [m |-> TrimOf(NoDash(SubSeq(s, 1, p - 1)), Sp) = name, flag |-> FALSE, v |-> TrimOf(SubSeq(s, p + 1, Len(s)), Sp)]
\* values
Int32(q) == Leq(q.ds, IF q.neg THEN <<2,1,4,7,4,8,3,6,4,8>> ELSE <<2,1,4,7,4,8,3,6,4,7>>)
NoVal == [ok |-> FALSE, v |-> <<>>]
Val(v) == [ok |-> TRUE, v |-> v]
FromText(k, s) ==
    IF k = "s" THEN Val(s)
    ELSE IF k = "d" THEN LET q == ReadReal(s) IN IF q.ok THEN Val([q.v EXCEPT !.neg = @ /\ q.v.ds # <<>>]) ELSE NoVal
    ELSE LET q == ReadInt(s) IN
         IF ~q.ok THEN NoVal
         ELSE IF k = "b" THEN IF q.ds \in {<<>>, <<1>>} /\ ~q.neg THEN Val(IF q.ds = <<>> THEN 0 ELSE 1) ELSE NoVal
         ELSE IF Int32(q) THEN Val([neg |-> q.neg /\ q.ds # <<>>, ds |-> q.ds]) ELSE NoVal
ToText(k, v) == CASE k = "s" -> v [] k = "b" -> <<48 + v>> [] k = "d" -> GenOf(v, 6)
                  [] k = "i" -> Signed(v.neg, IF v.ds = <<>> THEN <<48>> ELSE Chars(v.ds))
Cell(k, s) == FromText(k, TrimOf(TrimOf(s, Sp), Quote))
Bracketed(s) == Len(s) >= 2 /\ s[1] = 91 /\ s[Len(s)] = 93
\* what an argument says about a variable: [ok, v: sequence of values]
Told(x, p) ==
    IF p.flag THEN LET q == FromText(x.k, <<49>>) IN Val(<<q.v>>)
    ELSE IF x.w = 1 /\ Bracketed(p.v) THEN
        LET i == SubSeq(p.v, 2, Len(p.v) - 1) c == SplitC(i, COMMA) IN
        IF i = <<>> THEN Val(<<>>)
        ELSE IF \A j \in 1..Len(c) : Cell(x.k, c[j]).ok THEN Val([j \in 1..Len(c) |-> Cell(x.k, c[j]).v]) ELSE NoVal
    ELSE LET q == Cell(x.k, p.v) IN IF q.ok THEN Val(<<q.v>>) ELSE NoVal
Shown(x, v) == x.n \o <<EQ>> \o (IF x.w = 1 THEN <<91>> \o JoinC([j \in 1..Len(v) |-> ToText(x.k, v[j])], COMMA) \o <<93>> ELSE ToText(x.k, v[1]))
\* arguments: sequences of [t, r]: text, recognised
Given(ts) == [j \in 1..Len(ts) |-> [t |-> ts[j], r |-> FALSE]]
\* reading one variable, whose current value is v
ReadVar(args, x, v) ==
    LET P == [j \in 1..Len(args) |-> Parse(args[j].t, x.n)]
        M == {j \in 1..Len(args) : P[j].m}
        T == [j \in M |-> Told(x, P[j])]
        seen == [j \in 1..Len(args) |-> IF j \in M THEN [args[j] EXCEPT !.r = TRUE] ELSE args[j]]
        top == CHOOSE j \in M : \A i \in M : i <= j
    IN IF M = {} THEN [args |-> Append(args, [t |-> Shown(x, v), r |-> TRUE]), v |-> v, loose |-> FALSE]
       ELSE IF \A j \in M : T[j].ok THEN [args |-> seen, v |-> T[top].v, loose |-> FALSE]
       ELSE [args |-> seen, v |-> v, loose |-> Cardinality(M) > 1]
RECURSIVE ReadVars(_, _, _)
ReadVars(args, xs, vs) ==
    IF xs = <<>> THEN [args |-> args, vs |-> <<>>, loose |-> FALSE]
    ELSE LET a == ReadVar(args, xs[1], vs[1]) b == ReadVars(a.args, Tail(xs), Tail(vs)) IN
         [args |-> b.args, vs |-> <<a.v>> \o b.vs, loose |-> a.loose \/ b.loose]
WriteVars(args, xs, vs) == args \o [j \in 1..Len(xs) |-> [t |-> Shown(xs[j], vs[j]), r |-> TRUE]]
Text(args) == JoinC([j \in 1..Len(args) |-> args[j].t], SPACE)
Unknown(args) == SelectSeq(args, LAMBDA a : ~a.r)
\* words of a command line, double quotes keep blanks
RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(s, cur, in, q) ==
    IF s = <<>> THEN (IF in THEN <<cur>> ELSE <<>>)
    ELSE IF s[1] = 34 THEN WordsFrom(Tail(s), cur, TRUE, ~q)
    ELSE IF s[1] \in Sp /\ ~q THEN (IF in THEN <<cur>> ELSE <<>>) \o WordsFrom(Tail(s), <<>>, FALSE, FALSE)
    ELSE WordsFrom(Tail(s), Append(cur, s[1]), TRUE, q)
Words(s) == WordsFrom(s, <<>>, FALSE, FALSE)
===============================================================================
