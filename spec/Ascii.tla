-------------------------------- MODULE Ascii --------------------------------
(* Text tables.  A table is a sequence of columns of equal length; a file is  *)
(* a sequence of bytes.                                                       *)
EXTENDS Str, Conv
NL == 10
\* arguments: t = "v" one column, "m" a matrix (m columns), "g" groups of matrices with columns interleaved
\* k: "i" integers, "s" strings, "g"/"e" reals with p digits; v: flat values, rows first
CellText(a, x) == IF a.k = "i" THEN {IntText(x)} ELSE IF a.k = "s" THEN {x}
    ELSE LET w == [neg |-> x.neg = 1, ds |-> x.ds, x |-> x.x] IN IF a.k = "g" THEN GenTexts(w, a.p) ELSE SciTexts(w, a.p)
TextOf(a, x) == CHOOSE t \in CellText(a, x) : TRUE
\* columns are <<a, j>>: column j of argument a
RECURSIVE ArgCols(_)
ArgCols(a) == IF a.t # "g" THEN [j \in 1..a.m |-> <<a, j>>]
              ELSE Concat([g \in 1..a.n |-> [q \in 1..Len(a.of) |-> <<a.of[q], g>>]])
RECURSIVE Flatten(_)
Flatten(as) == IF as = <<>> THEN <<>> ELSE ArgCols(as[1]) \o Flatten(Tail(as))
Rows(c) == c[1].rows
Cell(c, i) == TextOf(c[1], c[1].v[(i - 1) * c[1].m + c[2]])
\* [hdr: names or <<>>, hc, delim, auto, minw]
WidthOf(o, cs, j) ==
    IF o.auto = 0 THEN o.minw
    ELSE Maximum({o.minw} \cup {Len(Cell(cs[j], i)) : i \in 1..Rows(cs[j])}
                 \cup IF o.hdr = <<>> THEN {} ELSE {Len(o.hdr[j]) + (IF j = 1 THEN Len(o.hc) ELSE 0)})
HeaderLine(o, cs) == o.hc \o Join([j \in 1..Len(cs) |->
    LET w == WidthOf(o, cs, j) IN AlignR(o.hdr[j], IF j = 1 /\ w >= Len(o.hc) THEN w - Len(o.hc) ELSE w, SPACE)], o.delim) \o <<NL>>
DataLine(o, cs, i) == Join([j \in 1..Len(cs) |-> AlignR(Cell(cs[j], i), WidthOf(o, cs, j), SPACE)], o.delim) \o <<NL>>
Written(o, cs) == (IF o.hdr = <<>> THEN <<>> ELSE HeaderLine(o, cs)) \o Concat([i \in 1..Rows(cs[1]) |-> DataLine(o, cs, i)])
WriteOk(o, cs) == (\A j \in 1..Len(cs) : Rows(cs[j]) = Rows(cs[1])) /\ (o.hdr = <<>> \/ Len(o.hdr) = Len(cs))
(***************************************************************************)
(* Reading.  Options: [auto, pat, first, delim, single].                   *)
(***************************************************************************)
RECURSIVE NoCR(_)
NoCR(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN NoCR(SubSeq(s, 1, Len(s) - 1)) ELSE s
AllBlank(s) == \A k \in 1..Len(s) : s[k] \in {32, 9}
LeftTrim(s) == LET K == {k \in 1..Len(s) : s[k] \notin {32, 9}} IN IF K = {} THEN <<>> ELSE SubSeq(s, Minimum(K), Len(s))
FileLines(f) == LET L == Split(f, <<NL>>) IN [k \in 1..Len(L) |-> NoCR(L[k])]
DataLines(f, o) == LET keep(l) == ~AllBlank(l) /\ ~(o.auto = 1 /\ Begins(LeftTrim(l), o.pat))
                       ls == SelectSeq(FileLines(f), keep)
                   IN Drop(ls, o.first)
Fields(l, o) == IF o.single = 1 THEN Split(l, o.delim) ELSE Words(l, Rng(o.delim))
\* requested columns: kinds, "_" to ignore
ReqCols(a) == IF a.t = "g" THEN Concat([g \in 1..a.n |-> a.of]) ELSE <<a.k>>
RECURSIVE Reqs(_)
Reqs(as) == IF as = <<>> THEN <<>> ELSE ReqCols(as[1]) \o Reqs(Tail(as))
MaxInt == <<2,1,4,7,4,8,3,6,4,7>>
MinInt == <<2,1,4,7,4,8,3,6,4,8>>
Convertible(k, w) == IF k = "_" \/ k = "s" THEN TRUE
    ELSE IF k = "i" THEN LET q == ReadInt(w) IN q.ok /\ Leq(q.ds, IF q.neg THEN MinInt ELSE MaxInt)
    ELSE ReadReal(w).ok
ReadPossible(ls, o, as) == LET rq == Reqs(as) IN
    /\ \A i \in 1..Len(ls) : LET w == Fields(ls[i], o) IN Len(w) >= Len(rq) /\ \A j \in 1..Len(rq) : Convertible(rq[j], w[j])
    /\ (\E q \in 1..Len(as) : as[q].t = "x") => Len(ls) <= 1
\* value x recorded for the word w
SameCell(k, w, x) == IF k = "s" THEN x = w
    ELSE IF k = "i" THEN LET q == ReadInt(w) IN Len(q.ds) > 9 \/ x = (IF q.neg THEN -NumVal(q.ds) ELSE NumVal(q.ds))
    ELSE LET u == ReadReal(w).v y == Norm(x.neg = 1, x.ds, x.x) IN y.ds = u.ds /\ y.x = u.x /\ (u.ds # <<>> => y.neg = u.neg)
=============================================================================
