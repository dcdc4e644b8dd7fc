-------------------------------- MODULE StrMC --------------------------------
(* All short strings over a small alphabet (a, A, space).                     *)
EXTENDS Str
CONSTANTS N, M
VARIABLES s, p, n
Strs(k) == UNION {[1..l -> {97, 65, 32}] : l \in 0..k}
Init == s \in Strs(N) /\ p \in Strs(M) /\ n \in 0..N + 1
Spec == Init /\ [][FALSE]_<<s, p, n>>
Pat == p # <<>>
\* splitting and joining are inverse; no piece contains the separator
SplitJoin == Pat => LET v == Split(s, p) IN Join(v, p) = s /\ \A k \in 1..Len(v) : FindFrom(v[k], p, 0) = NPOS
ReplaceId == Pat => Replace(s, p, p) = s
ReplaceRemoves == Pat => (FindFrom(s, p, 0) = NPOS => Replace(s, p, <<98>>) = s)
CutJoin == n > 0 => Concat(Cut(s, n)) = s /\ \A k \in 1..Len(Cut(s, n)) : Len(Cut(s, n)[k]) = n \/ (k = Len(Cut(s, n)) /\ Len(Cut(s, n)[k]) < n)
TakeDrop == Take(s, n) \o Drop(s, n) = s /\ DropEnd(s, n) \o TakeEnd(s, n) = s
TrimIdem == LET t == Trim(s, {SPACE}) IN Trim(t, {SPACE}) = t /\ FindFrom(s, t, 0) # NPOS /\ Words(s, {SPACE}) = Words(t, {SPACE})
BeginEnd == /\ Begins(s \o p, s) /\ EndsW(s \o p, p) /\ (Begins(s, p) => p \o Drop(s, Len(p)) = s)
Dist == Distance(s, p) = Distance(p, s) /\ (Distance(s, p) = 0 <=> s = p)
Cased == [k \in 1..Len(s) |-> Lower(Upper(s[k]))] = [k \in 1..Len(s) |-> Lower(s[k])]
Aligned == Len(AlignL(s, n, 48)) = (IF n > Len(s) THEN n ELSE Len(s)) /\ Len(AlignC(s, n, 48)) = Len(AlignR(s, n, 48))
\* wrapping keeps the words, respects the width unless a single word does not fit, and is greedy
Flat(v) == Join(v, <<SPACE>>)
Wrapped == n > 0 => LET v == Wrap(s, n, <<>>, FALSE) IN
    /\ Words(Flat(v), {SPACE}) = Words(s, {SPACE})
    /\ \A k \in 1..Len(v) : Len(v[k]) > n => Len(Words(v[k], {SPACE})) = 1
    /\ \A k \in 1..(Len(v) - 1) : Len(v[k]) + 1 + Len(Words(Join(SubSeq(v, k + 1, Len(v)), <<SPACE>>), {SPACE})[1]) > n
Indented == n > 1 => LET v == Wrap(s, n, <<33>>, FALSE) IN
    \A k \in 2..Len(v) : v[k][1] = 33 /\ (Len(v[k]) > n => Len(Words(v[k], {SPACE})) = 1)
Ellipsed == n > 4 => \A k \in 1..Len(Wrap(s, n, <<33>>, TRUE)) : Len(Wrap(s, n, <<33>>, TRUE)[k]) <= n
BlockSound == Pat => LET b == Blocks(s, <<97>>, p) IN b.ok => Len(b.t) = Len(b.b) + 1 /\ Weave(b.t, [k \in 1..Len(b.b) |-> <<97>> \o b.b[k] \o p]) = s
MBlockSound == Pat => LET b == MBlocks(s, p, <<97, 97>>, <<97>>) IN
    b.ok => Len(b.t) = Len(b.b) + 1 /\ Weave(b.t, [k \in 1..Len(b.b) |-> p \o Join(b.b[k], <<97, 97>>) \o <<97>>]) = s
Re(lo, hi, z) == [a |-> 0, z |-> z, it |-> <<[cs |-> <<97>>, lo |-> lo, hi |-> hi, cap |-> 1]>>]
\* the pattern (a+) finds exactly the maximal runs of a
RunsOfA == [k \in 1..Len(AllMatches(s, Re(1, 99, 0), 0)) |-> SubSeq(s, AllMatches(s, Re(1, 99, 0), 0)[k][1] + 1, AllMatches(s, Re(1, 99, 0), 0)[k][2])]
           = Words(s, {65, 32})
Anchored == Matches(s, Re(1, 99, 1)) <=> (s # <<>> /\ s[Len(s)] = 97)
=============================================================================
