-------------------------------- MODULE HdrMC --------------------------------
(* All short histories of setting keys in a header, with and without END.     *)
EXTENDS Hdr
CONSTANTS Steps
VARIABLES cs, n, last
A == <<65>>
B == <<66>>
MCVals == {<<49>>, <<QT, 97, SLASH, 98, QT>>, <<QT, QT, QT, QT>>, <<QT, QT>>, <<QT, 97, QT, QT, 98, QT>>}
Coms == {<<>>, <<99>>, <<QT, 99>>}
Mk(key, v, c) == Pad(Pad(key, 8) \o <<EQ, 32>> \o v \o (IF c = <<>> THEN <<>> ELSE <<32, SLASH, 32>> \o c), W)
Init == cs \in {<<>>, <<END_>>, <<Mk(<<69, 88, 84, 69, 78, 68>>, <<84>>, <<>>)>>, <<Mk(B, <<50>>, <<99>>), END_>>} /\ n = 0 /\ last = [op |-> 0]
Next == n < Steps /\ \E key \in {A, B}, v \in MCVals, c \in Coms :
    LET old == IF Has(cs, key) THEN ValueOf(cs[Where(cs, key)]).c ELSE <<>>
        nc == Mk(key, v, IF c # <<>> THEN c ELSE IF old = <<>> THEN <<>> ELSE T1(Tail(old))) IN
    cs' = SetCards(cs, key, nc) /\ n' = n + 1 /\ last' = [op |-> 1, key |-> key, v |-> v, c |-> c, was |-> cs, nc |-> nc]
Spec == Init /\ [][Next]_<<cs, n, last>>
Found == last.op = 1 => Has(cs, last.key) /\ ValueOf(cs[Where(cs, last.key)]).v = last.v
Accepted == last.op = 1 => CardOk(last.nc, last.key, last.v, last.c, IF Has(last.was, last.key) THEN last.was[Where(last.was, last.key)] ELSE <<>>)
Others == last.op = 1 => \A k \in {A, B, <<69, 88, 84, 69, 78, 68>>} \ {last.key} : Has(last.was, k) => (Has(cs, k) /\ cs[Where(cs, k)] = last.was[Where(last.was, k)])
EndLast == last.op = 1 => ((last.was # <<>> /\ last.was[Len(last.was)] = END_) <=> cs[Len(cs)] = END_)
Once == \A k \in {A, B} : Cardinality({i \in 1..Len(cs) : FirstOf(cs[i], EQ) # 0 /\ Name(cs[i]) = k}) <= 1
Agree == LET p == ParseH(cs) IN Len(p) = Len(cs) /\ \A i \in 1..Len(cs) : FirstOf(cs[i], EQ) # 0 => (p[i].key = Name(cs[i]) /\ p[i].value = ValueOf(cs[i]).v)
==============================================================================
