---------------------------------- MODULE Fs ----------------------------------
(* A directory tree: a function from paths (sequences of names, a name being  *)
(* a sequence of byte codes) to nodes.  <<>> is the root of the tree.         *)
(* a: the owner may read/write a file, or change the entries of a directory.  *)
EXTENDS Naturals, Sequences, FiniteSets
FileOf(c) == [d |-> FALSE, v |-> c, a |-> TRUE]
Dir == [d |-> TRUE, v |-> <<>>, a |-> TRUE]
EmptyTree == [p \in {<<>>} |-> Dir]
In(t, p) == p \in DOMAIN t
IsDir(t, p) == IF In(t, p) THEN t[p].d ELSE FALSE
IsFile(t, p) == IF In(t, p) THEN ~t[p].d ELSE FALSE
Free(t, p) == IF In(t, p) THEN t[p].a ELSE TRUE
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Prefixes(p) == {SubSeq(p, 1, k) : k \in 0..Len(p)}
Under(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Put(t, p, x) == [q \in DOMAIN t \cup {p} |-> IF q = p THEN x ELSE t[q]]
Del(t, p) == [q \in {r \in DOMAIN t : ~Under(p, r)} |-> t[q]]
Kids(t, p) == {q[Len(q)] : q \in {r \in DOMAIN t : Len(r) = Len(p) + 1 /\ Under(p, r)}}
\* creating a directory and its parents
MkdirOk(t, p) == /\ \A q \in Prefixes(p) : In(t, q) => t[q].d
                 /\ \A q \in Prefixes(p) : (q # <<>> /\ ~In(t, q) /\ In(t, Parent(q))) => t[Parent(q)].a
Mkdir(t, p) == [q \in DOMAIN t \cup Prefixes(p) |-> IF In(t, q) THEN t[q] ELSE Dir]
\* copying a file
CopyOk(t, p, q) == IsFile(t, p) /\ Free(t, p) /\ p # q /\ IsDir(t, Parent(q)) /\ ~IsDir(t, q)
                   /\ (IF In(t, q) THEN t[q].a ELSE t[Parent(q)].a)
Copy(t, p, q) == Put(t, q, [t[p] EXCEPT !.a = TRUE])
\* removing a file or an empty directory
RemoveOk(t, p) == In(t, p) /\ Kids(t, p) = {} /\ t[Parent(p)].a
\* moving: certainly possible / possible at all
MoveSure(t, p, q) == /\ In(t, p) /\ IsDir(t, Parent(q)) /\ p # q /\ ~Under(p, q) /\ ~Under(q, p)
                     /\ t[Parent(p)].a /\ t[Parent(q)].a /\ t[p].a
                     /\ (In(t, q) => ~t[p].d /\ ~t[q].d)
MoveMay(t, p, q) == IF p = q THEN In(t, p) ELSE In(t, p) /\ IsDir(t, Parent(q)) /\ t[Parent(p)].a /\ t[Parent(q)].a /\ ~Under(p, q) /\ (In(t, q) => t[q].d = t[p].d /\ Kids(t, q) = {})
Move(t, p, q) ==
    LET T == {r \in DOMAIN t : Under(p, r)}
        to(r) == q \o SubSeq(r, Len(p) + 1, Len(r))
        K == {r \in DOMAIN t : ~Under(p, r) /\ ~Under(q, r)}
    IN IF p = q THEN t ELSE [x \in K \cup {to(r) : r \in T} |-> IF x \in K THEN t[x] ELSE t[CHOOSE r \in T : to(r) = x]]
WellFormed(t) == IsDir(t, <<>>) /\ \A p \in DOMAIN t : p # <<>> => IsDir(t, Parent(p))
\* names
Star == 42
Dot == 46
Slash == 47
RECURSIVE Glob(_, _)
Glob(p, s) == IF p = <<>> THEN s = <<>>
              ELSE IF p[1] = Star THEN \E k \in 0..Len(s) : Glob(Tail(p), SubSeq(s, k + 1, Len(s)))
              ELSE s # <<>> /\ s[1] = p[1] /\ Glob(Tail(p), Tail(s))
Matches(pat, s) == pat = <<>> \/ Glob(pat, s)
Hidden(s) == s # <<>> /\ s[1] = Dot
ListOf(t, p, pat, dirs) == IF ~IsDir(t, p) THEN {} ELSE {n \in Kids(t, p) : ~Hidden(n) /\ Matches(pat, n) /\ t[Append(p, n)].d = dirs}
\* paths as text
RECURSIVE Strip(_, _)
Strip(s, c) == IF s # <<>> /\ s[Len(s)] = c THEN Strip(SubSeq(s, 1, Len(s) - 1), c) ELSE s
PosOf(s, c) == LET P == {i \in 1..Len(s) : s[i] = c} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i
Blank(c) == c \in {32, 9}
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ Blank(s[1]) THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimB(s) == LTrim(RTrim(s))
Directorize(s) == LET u == TrimB(s) IN IF u = <<>> \/ u[Len(u)] = Slash THEN u ELSE Append(u, Slash)
Absolute(s) == LET u == LTrim(s) IN u # <<>> /\ u[1] = Slash
Basename(s) == LET u == Strip(s, Slash) IN IF s = <<>> THEN <<>> ELSE IF u = <<>> THEN <<Slash>> ELSE SubSeq(u, PosOf(u, Slash) + 1, Len(u))
Dirname(s) == LET u == Strip(s, Slash) k == PosOf(u, Slash) IN
    IF s # <<>> /\ u = <<>> THEN <<Slash>> ELSE IF k = 0 THEN <<Dot, Slash>> ELSE Append(Strip(SubSeq(u, 1, k), Slash), Slash)
Ext(s) == LET k == PosOf(s, Dot) IN IF k = 0 THEN <<>> ELSE SubSeq(s, k, Len(s))
NoExt(s) == SubSeq(s, 1, Len(s) - Len(Ext(s)))
===============================================================================
