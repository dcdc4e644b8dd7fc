-------------------------------- MODULE FsMC --------------------------------
(* All short histories of file operations on a small tree.                   *)
EXTENDS Fs
CONSTANTS Steps
VARIABLES t, n, last
vars == <<t, n, last>>
N == {<<97>>, <<98>>}
Paths == {<<a>> : a \in N} \cup {<<a, b>> : a \in N, b \in N} \cup {<<<<97>>, <<97>>, <<98>>>>}
Init == t = EmptyTree /\ n = 0 /\ last = [op |-> "none"]
L(op, p, q, ok) == [op |-> op, p |-> p, q |-> q, ok |-> ok, old |-> t]
Do(ok, u, l) == t' = (IF ok THEN u ELSE t) /\ n' = n + 1 /\ last' = l
Next == n < Steps /\
    \/ \E p \in Paths : LET ok == MkdirOk(t, p) IN Do(ok, IF ok THEN Mkdir(t, p) ELSE t, L("mkdir", p, p, ok))
    \/ \E p \in Paths : LET ok == IsDir(t, Parent(p)) /\ ~IsDir(t, p) IN Do(ok, IF ok THEN Put(t, p, FileOf(<<n>>)) ELSE t, L("put", p, p, ok))
    \/ \E p, q \in Paths : LET ok == CopyOk(t, p, q) IN ok /\ Do(ok, Copy(t, p, q), L("copy", p, q, ok))
    \/ \E p, q \in Paths : LET ok == MoveMay(t, p, q) IN ok /\ Do(ok, Move(t, p, q), L("move", p, q, ok))
    \/ \E p \in Paths : In(t, p) /\ Do(TRUE, Del(t, p), L("del", p, p, TRUE))
Spec == Init /\ [][Next]_vars
Ok == WellFormed(t)
MkdirMakes == last.op = "mkdir" /\ last.ok => IsDir(t, last.p) /\ \A q \in DOMAIN last.old : In(t, q) /\ t[q] = last.old[q]
CopySame == last.op = "copy" => t[last.q].v = last.old[last.p].v /\ \A q \in DOMAIN last.old : q # last.q => t[q] = last.old[q]
\* a move loses and invents nothing, except what was overwritten
MoveKeeps == last.op = "move" => Cardinality(DOMAIN t) = Cardinality(DOMAIN last.old) - (IF In(last.old, last.q) /\ last.p # last.q THEN 1 ELSE 0)
                                 /\ In(t, last.q) /\ (last.p # last.q => ~In(t, last.p)) /\ t[last.q] = last.old[last.p]
SureIsMay == \A p, q \in Paths : MoveSure(t, p, q) => MoveMay(t, p, q)
DelOnly == last.op = "del" => \A q \in DOMAIN last.old : In(t, q) = ~Under(last.p, q)
Lists == \A p \in DOMAIN t : ListOf(t, p, <<>>, TRUE) \cup ListOf(t, p, <<>>, FALSE) = Kids(t, p)
\* text laws
Texts == {<<a, b, c>> : a \in {46, 47, 97}, b \in {46, 47, 97}, c \in {46, 47, 97}} \cup {<<47>>, <<97>>, <<47, 47>>, <<97, 47>>}
PathLaws == \A x \in Texts : /\ NoExt(x) \o Ext(x) = x /\ Directorize(Directorize(x)) = Directorize(x)
    /\ (Strip(x, Slash) = x => Strip(Dirname(x), Slash) \o <<Slash>> = Dirname(x))
    /\ Basename(Basename(x)) = Basename(x) /\ (Absolute(x) <=> Absolute(Dirname(x)))
=============================================================================
