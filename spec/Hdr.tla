--------------------------------- MODULE Hdr ---------------------------------
(* FITS headers as text: a sequence of cards of 80 characters (byte codes).   *)
EXTENDS Argv
QT == 39
SLASH == 47
AMP == 38
W == 80
Pad(s, n) == s \o [k \in 1..(IF Len(s) < n THEN n - Len(s) ELSE 0) |-> 32]
CardsOf(h) == [k \in 1..(Len(h) \div W) |-> SubSeq(h, (k - 1) * W + 1, k * W)]
RECURSIVE Flat(_)
Flat(cs) == IF cs = <<>> THEN <<>> ELSE cs[1] \o Flat(Tail(cs))
T1(s) == TrimOf(s, {32, 9})
Begins(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* position of the quote closing the string opened at position p, 0 if none
RECURSIVE CloseAt(_, _)
CloseAt(s, p) == LET q == FirstOf(SubSeq(s, p + 1, Len(s)), QT) IN
    IF q = 0 THEN 0 ELSE IF At(s, p + q + 1) = QT THEN CloseAt(s, p + q + 1) ELSE p + q
\* "value / comment": [v, c (with its slash), all trimmed]
Field(s0) == LET s == T1(s0) IN
    IF s # <<>> /\ s[1] = QT THEN
        LET p == CloseAt(s, 1) IN IF p = 0 THEN [v |-> s, c |-> <<>>] ELSE [v |-> SubSeq(s, 1, p), c |-> T1(SubSeq(s, p + 1, Len(s)))]
    ELSE LET p == FirstOf(s, SLASH) IN IF p = 0 THEN [v |-> s, c |-> <<>>] ELSE [v |-> T1(SubSeq(s, 1, p - 1)), c |-> T1(SubSeq(s, p, Len(s)))]
Name(c) == LET p == FirstOf(c, EQ) IN IF p = 0 THEN <<>> ELSE T1(SubSeq(c, 1, p - 1))
ValueOf(c) == Field(SubSeq(c, FirstOf(c, EQ) + 1, Len(c)))
Has(cs, key) == \E k \in 1..Len(cs) : FirstOf(cs[k], EQ) # 0 /\ Name(cs[k]) = key
Where(cs, key) == CHOOSE k \in 1..Len(cs) : FirstOf(cs[k], EQ) # 0 /\ Name(cs[k]) = key /\ \A j \in 1..(k - 1) : ~(FirstOf(cs[j], EQ) # 0 /\ Name(cs[j]) = key)
RECURSIVE Undouble(_)
Undouble(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = QT /\ s[2] = QT THEN <<QT>> \o Undouble(SubSeq(s, 3, Len(s))) ELSE <<s[1]>> \o Undouble(Tail(s))
IsStr(v) == Len(v) >= 2 /\ v[1] = QT /\ CloseAt(v, 1) = Len(v)
Content(v) == IF IsStr(v) THEN RTrimOf(Undouble(SubSeq(v, 2, Len(v) - 1)), {32}) ELSE v
END_ == Pad(<<69, 78, 68>>, W)
\* setting a key: nc is the new card
SetCards(cs, key, nc) ==
    IF Has(cs, key) THEN [cs EXCEPT ![Where(cs, key)] = nc]
    ELSE IF cs # <<>> /\ cs[Len(cs)] = END_ THEN SubSeq(cs, 1, Len(cs) - 1) \o <<nc, END_>>
    ELSE Append(cs, nc)
\* what a new card must say; old: the card it replaces or <<>>; com: new comment or <<>>
CardOk(nc, key, val, com, old) ==
    /\ Len(nc) = W /\ SubSeq(nc, 1, 10) = Pad(key, 8) \o <<EQ, 32>>
    /\ LET f == ValueOf(nc) oc == IF old = <<>> THEN <<>> ELSE ValueOf(old).c
           want == IF com # <<>> THEN T1(com) ELSE IF oc = <<>> THEN <<>> ELSE T1(Tail(oc)) IN
       /\ f.v = T1(val)
       /\ IF want = <<>> THEN T1(IF f.c = <<>> THEN <<>> ELSE Tail(f.c)) = <<>>
          \* an old comment is cut if there is no room
          ELSE IF com = <<>> /\ 10 + Len(val) + 3 + Len(want) > W THEN Begins(want, T1(IF f.c = <<>> THEN <<>> ELSE Tail(f.c))) \/ nc[W] = AMP
          ELSE f.c # <<>> /\ T1(Tail(f.c)) = want
Fits(key, val, com) == Len(key) <= 8 /\ 10 + Len(val) + (IF com = <<>> THEN 0 ELSE 3 + Len(com)) <= W
\* parsed form: sequence of [key, value, comment, no]
Kw(k, v, c, no) == [key |-> k, value |-> v, comment |-> c, no |-> no]
HIST == <<72,73,83,84,79,82,89,32>>
COMM == <<67,79,77,77,69,78,84,32>>
CONT == <<67,79,78,84,73,78,85,69,32>>
Card1(c) == LET e == FirstOf(c, EQ) s == FirstOf(c, SLASH) IN
    IF Begins(c, HIST) \/ Begins(c, COMM) \/ (e = 0 /\ s = 0) THEN Kw(T1(c), <<>>, <<>>, 1)
    ELSE IF e = 0 \/ (s # 0 /\ s < e) THEN Kw(T1(SubSeq(c, 1, s - 1)), <<>>, T1(SubSeq(c, s, Len(c))), 1)
    ELSE LET f == ValueOf(c) IN Kw(Name(c), f.v, f.c, 0)
RECURSIVE ParseFrom(_, _)
ParseFrom(cs, acc) ==
    IF cs = <<>> THEN acc
    ELSE IF Begins(cs[1], CONT) /\ acc # <<>> THEN
        LET f == Field(SubSeq(cs[1], 10, W)) k == acc[Len(acc)]
            a == SubSeq(k.value, 2, Len(k.value) - 1)
            b == IF a # <<>> /\ a[Len(a)] = AMP THEN SubSeq(a, 1, Len(a) - 1) ELSE a IN
        ParseFrom(Tail(cs), [acc EXCEPT ![Len(acc)] = [@ EXCEPT !.value = <<QT>> \o b \o SubSeq(f.v, 2, Len(f.v) - 1) \o <<QT>>, !.comment = f.c]])
    ELSE ParseFrom(Tail(cs), Append(acc, Card1(cs[1])))
ParseH(cs) == ParseFrom(cs, <<>>)
\* room needed to write a keyword again
Room(k) == IF k.no = 1 THEN (IF Len(k.key) < 30 THEN 30 ELSE Len(k.key)) + 1 + Len(k.comment)
           ELSE (IF Len(k.key) > 8 THEN Len(k.key) + 3 ELSE 10) + (IF Len(k.value) < 20 THEN 20 ELSE Len(k.value)) + 1 + Len(k.comment)
WcsWords == {<<82,65>>, <<68,69,67>>, <<69,80,79,67,72>>, <<69,81,85,73,78,79,88>>, <<83,69,67,80,73,88>>, <<73,77,87,67,83>>, <<67,68,49,95,49>>, <<67,68,49,95,50>>,
             <<67,68,50,95,49>>, <<67,68,50,95,50>>, <<80,67,49,95,49>>, <<80,67,49,95,50>>, <<80,67,50,95,49>>, <<80,67,50,95,50>>, <<67,84,89,80,69>>, <<67,82,86,65,76>>,
             <<67,68,69,76,84>>, <<67,82,80,73,88>>, <<67,82,79,84,65>>, <<67,85,78,73,84>>, <<69,78,68>>}
WcsOnly(cs) == SelectSeq(cs, LAMBDA c : \E w \in WcsWords : Begins(c, w))
===============================================================================
