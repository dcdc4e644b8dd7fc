--------------------------------- MODULE Str ---------------------------------
(* Strings: sequences of byte codes.  Positions given to the user are 0-based. *)
EXTENDS Integers, Sequences, FiniteSets
NPOS == 2000000000
Minimum(S) == CHOOSE x \in S : \A y \in S : x <= y
Maximum(S) == CHOOSE x \in S : \A y \in S : x >= y
Lesser(a, b) == IF a < b THEN a ELSE b
Rng(q) == {q[k] : k \in 1..Len(q)}
Reps(c, n) == [k \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
\* drop the first n, keep the first n
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
Take(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
TakeEnd(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
DropEnd(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, 1, Len(s) - n)
\* occurrence of p in s at position i (0-based)
Occ(s, p, i) == i + Len(p) <= Len(s) /\ \A k \in 1..Len(p) : s[i + k] = p[k]
FindFrom(s, p, i) == LET O == {j \in i..Len(s) : Occ(s, p, j)} IN IF O = {} THEN NPOS ELSE Minimum(O)
Begins(s, p) == Occ(s, p, 0)
EndsW(s, p) == Len(p) <= Len(s) /\ Occ(s, p, Len(s) - Len(p))
Distance(a, b) == LET n == Lesser(Len(a), Len(b)) IN
    Cardinality({k \in 1..n : a[k] # b[k]}) + (Len(a) - n) + (Len(b) - n)
\* separated by the non-empty pattern p
RECURSIVE Split(_, _)
Split(s, p) == LET i == FindFrom(s, p, 0) IN
    IF i = NPOS THEN <<s>> ELSE <<Take(s, i)>> \o Split(Drop(s, i + Len(p)), p)
RECURSIVE Join(_, _)
Join(v, sep) == IF v = <<>> THEN <<>> ELSE IF Len(v) = 1 THEN v[1] ELSE v[1] \o sep \o Join(Tail(v), sep)
Replace(s, p, r) == Join(Split(s, p), r)
\* maximal runs of characters not in C
RECURSIVE Words(_, _)
Words(s, C) ==
    IF s = <<>> THEN <<>>
    ELSE IF s[1] \in C THEN Words(Tail(s), C)
    ELSE LET E == {k \in 1..Len(s) : s[k] \in C} n == IF E = {} THEN Len(s) ELSE Minimum(E) - 1
         IN <<Take(s, n)>> \o Words(Drop(s, n), C)
Trim(s, C) == LET K == {k \in 1..Len(s) : s[k] \notin C} IN
    IF K = {} THEN <<>> ELSE SubSeq(s, Minimum(K), Maximum(K))
RECURSIVE Cut(_, _)
Cut(s, n) == IF s = <<>> THEN <<>> ELSE <<Take(s, n)>> \o Cut(Drop(s, n), n)
SPACE == 32
White == {32, 9, 10, 13}
Dots == <<46, 46, 46>>
\* tw: room on this line; w: full width, ind: indentation of the next lines
RECURSIVE WrapR(_, _, _, _, _, _)
WrapR(s, hdr, tw, w, ind, ell) ==
    IF Len(s) <= tw THEN (IF s = <<>> THEN <<>> ELSE <<hdr \o s>>)
    ELSE LET B == {i \in 0..tw : s[i + 1] = SPACE}
             A == {i \in tw..(Len(s) - 1) : s[i + 1] = SPACE}
             e == IF A = {} THEN Len(s) ELSE Minimum(A)
             n == IF B # {} THEN Maximum(B) ELSE e
             l == IF B = {} /\ ell THEN Take(s, tw - 3) \o Dots ELSE Take(s, n)
         IN <<hdr \o l>> \o WrapR(Trim(Drop(s, n), White), ind, w - Len(ind), w, ind, ell)
Wrap(s, w, ind, ell) == WrapR(s, <<>>, w, w, ind, ell)
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
AlignL(s, w, c) == s \o Reps(c, w - Len(s))
AlignR(s, w, c) == Reps(c, w - Len(s)) \o s
AlignC(s, w, c) == LET n == IF w > Len(s) THEN w - Len(s) ELSE 0 IN Reps(c, n \div 2) \o s \o Reps(c, n - n \div 2)
\* blocks b...e: the list alternates text, block, text, ..., or is <<"bad">> when a block has no end
RECURSIVE Blocks(_, _, _)
Blocks(s, b, e) == LET i == FindFrom(s, b, 0) IN
    IF i = NPOS THEN [ok |-> TRUE, t |-> <<s>>, b |-> <<>>]
    ELSE LET j == FindFrom(s, e, i + Len(b)) IN
         IF j = NPOS THEN [ok |-> FALSE, t |-> <<>>, b |-> <<>>]
         ELSE LET r == Blocks(Drop(s, j + Len(e)), b, e) IN
              [ok |-> r.ok, t |-> <<Take(s, i)>> \o r.t, b |-> <<SubSeq(s, i + Len(b) + 1, j)>> \o r.b]
\* blocks with components: the separator takes precedence over the end where both stand
RECURSIVE Comps(_, _, _, _)
Comps(s, sep, e, acc) ==
    LET i == FindFrom(s, sep, 0) j == FindFrom(s, e, 0) IN
    IF i # NPOS /\ j # NPOS /\ i <= j THEN Comps(Drop(s, i + Len(sep)), sep, e, Append(acc, Take(s, i)))
    ELSE IF j = NPOS THEN [ok |-> FALSE, c |-> <<>>, rest |-> <<>>]
    ELSE [ok |-> TRUE, c |-> Append(acc, Take(s, j)), rest |-> Drop(s, j + Len(e))]
RECURSIVE MBlocks(_, _, _, _)
MBlocks(s, b, sep, e) == LET i == FindFrom(s, b, 0) IN
    IF i = NPOS THEN [ok |-> TRUE, t |-> <<s>>, b |-> <<>>]
    ELSE LET c == Comps(Drop(s, i + Len(b)), sep, e, <<>>) IN
         IF ~c.ok THEN [ok |-> FALSE, t |-> <<>>, b |-> <<>>]
         ELSE LET r == MBlocks(c.rest, b, sep, e) IN
              [ok |-> r.ok, t |-> <<Take(s, i)>> \o r.t, b |-> <<c.c>> \o r.b]
RECURSIVE Weave(_, _)
Weave(t, b) == IF b = <<>> THEN t[1] ELSE t[1] \o b[1] \o Weave(Tail(t), Tail(b))
RECURSIVE Concat(_)
Concat(v) == IF v = <<>> THEN <<>> ELSE v[1] \o Concat(Tail(v))
(***************************************************************************)
(* Regular expressions: a sequence of items, each a set of characters      *)
(* repeated lo to hi times and possibly captured, with anchors.            *)
(***************************************************************************)
\* lengths that items k.. can take, from 0-based position p
Run(s, it, p) == LET F == {j \in (p + 1)..Len(s) : s[j] \notin Rng(it.cs)}
                     n == IF F = {} THEN Len(s) - p ELSE Minimum(F) - 1 - p
                 IN {l \in it.lo..it.hi : l <= n}
RECURSIVE EndsOf(_, _, _, _)
EndsOf(s, re, k, p) ==
    IF k > Len(re.it) THEN (IF re.z = 1 /\ p # Len(s) THEN {} ELSE {p})
    ELSE UNION {EndsOf(s, re, k + 1, p + l) : l \in Run(s, re.it[k], p)}
MatchEnds(s, re, p) == IF re.a = 1 /\ p # 0 THEN {} ELSE EndsOf(s, re, 1, p)
Starts(s, re, from) == {p \in from..Len(s) : MatchEnds(s, re, p) # {}}
Matches(s, re) == Starts(s, re, 0) # {}
MinLen(re) == Cardinality({k \in 1..Len(re.it) : re.it[k].lo > 0})
\* non-overlapping leftmost-longest matches <<start, end>>
RECURSIVE AllMatches(_, _, _)
AllMatches(s, re, from) == LET P == Starts(s, re, from) IN
    IF P = {} THEN <<>> ELSE LET p == Minimum(P) e == Maximum(MatchEnds(s, re, p)) IN
    <<<<p, e>>>> \o AllMatches(s, re, e)
\* the captured strings g are those of some assignment of the match p..e
RECURSIVE Capt(_, _, _, _, _, _)
Capt(s, re, k, p, e, g) ==
    IF k > Len(re.it) THEN p = e /\ g = <<>>
    ELSE \E l \in Run(s, re.it[k], p) :
            IF re.it[k].cap = 0 THEN Capt(s, re, k + 1, p + l, e, g)
            ELSE g # <<>> /\ SubSeq(s, p + 1, p + l) = g[1] /\ Capt(s, re, k + 1, p + l, e, Tail(g))
NCap(re) == Cardinality({k \in 1..Len(re.it) : re.it[k].cap = 1})
=============================================================================
