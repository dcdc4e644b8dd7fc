-------------------------------- MODULE Conv --------------------------------
(* Numbers and their decimal text.  Text is a sequence of byte codes.  A      *)
(* number is [neg, ds, x]: sign, significant digits (no leading or trailing   *)
(* zero; <<>> for zero) and exponent: +/- 0.d1d2d3... * 10^x.                 *)
EXTENDS Integers, Sequences, FiniteSets
MINUS == 45
PLUS == 43
DOT == 46
LE == 101
UE == 69
Zero(n) == [k \in 1..(IF n > 0 THEN n ELSE 0) |-> 0]
Chars(ds) == [k \in 1..Len(ds) |-> 48 + ds[k]]
RECURSIVE StripL(_)
StripL(ds) == IF ds # <<>> /\ ds[1] = 0 THEN StripL(Tail(ds)) ELSE ds
RECURSIVE StripR(_)
StripR(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN StripR(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
Norm(neg, ds, x) == LET l == StripL(ds) r == StripR(l) IN
    [neg |-> neg, ds |-> r, x |-> IF r = <<>> THEN 0 ELSE x - (Len(ds) - Len(l))]
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE DigitsOf(n \div 10) \o <<n % 10>>
IntText(n) == IF n < 0 THEN <<MINUS>> \o Chars(DigitsOf(-n)) ELSE Chars(DigitsOf(n))
\* add one unit in the last place; may grow by one digit
RECURSIVE Incr(_)
Incr(ds) == IF ds = <<>> THEN <<1>>
            ELSE IF ds[Len(ds)] < 9 THEN [ds EXCEPT ![Len(ds)] = @ + 1]
            ELSE Incr(SubSeq(ds, 1, Len(ds) - 1)) \o <<0>>
\* the possible roundings of v to n digits after the decimal point: sequences of digits of the integer v * 10^n
RoundAt(v, n) ==
    LET k == v.x + n                       \* digits kept
        all == v.ds \o Zero(k - Len(v.ds))
    IN IF k < 0 THEN {<<0>>}
       ELSE LET keep == SubSeq(all, 1, k) rest == SubSeq(v.ds, k + 1, Len(v.ds))
                lo == IF keep = <<>> THEN <<0>> ELSE keep
                hi == IF keep = <<>> THEN <<1>> ELSE Incr(keep)
            IN IF rest = <<>> \/ rest[1] < 5 THEN {lo} ELSE IF rest = <<5>> THEN {lo, hi} ELSE {hi}
Signed(neg, t) == IF neg THEN <<MINUS>> \o t ELSE t
\* integer digits q, n of them after the point
Pointed(q, n) ==
    LET f == Zero(n + 1 - Len(q)) \o q          \* at least n + 1 digits
        i == SubSeq(f, 1, Len(f) - n) IN
    Chars(i) \o (IF n = 0 THEN <<>> ELSE <<DOT>> \o Chars(SubSeq(f, Len(f) - n + 1, Len(f))))
FixedTexts(v, n) == {Signed(v.neg, Pointed(q, n)) : q \in RoundAt(v, n)}
\* roundings to p significant digits, as numbers
SigRound(v, p) == IF v.ds = <<>> THEN {v} ELSE
    {LET n == p - v.x IN Norm(v.neg, q, Len(q) - n) : q \in RoundAt(v, p - v.x)}
ExpText(e) == LET d == DigitsOf(IF e < 0 THEN -e ELSE e) IN
    <<LE, IF e < 0 THEN MINUS ELSE PLUS>> \o Chars(Zero(2 - Len(d)) \o d)
\* scientific with n digits after the point, of a number with at most n + 1 digits
SciOf(v, n) == LET e == IF v.ds = <<>> THEN 0 ELSE v.x - 1 IN
    Signed(v.neg, Pointed((IF v.ds = <<>> THEN <<0>> ELSE v.ds) \o Zero(n + 1 - (IF v.ds = <<>> THEN 1 ELSE Len(v.ds))), n) \o ExpText(e))
SciTexts(v, n) == {SciOf(w, n) : w \in SigRound(v, n + 1)}
\* general format: p significant digits, trailing zeros removed
GenOf(v, p) ==
    LET e == IF v.ds = <<>> THEN 0 ELSE v.x - 1
        nd == IF v.ds = <<>> THEN 1 ELSE Len(v.ds)
        dec == IF nd > v.x THEN nd - v.x ELSE 0
    IN IF v.ds = <<>> THEN Signed(v.neg, <<48>>)
       ELSE IF e < -4 \/ e >= p THEN SciOf(v, nd - 1)
       ELSE Signed(v.neg, Pointed(v.ds \o Zero(v.x - nd), dec))
GenTexts(v, p0) == LET p == IF p0 = 0 THEN 1 ELSE p0 IN {GenOf(w, p) : w \in SigRound(v, p)}
(***************************************************************************)
(* Reading: blanks, sign, digits, point, digits, exponent, blanks          *)
(***************************************************************************)
Blank == {32, 9, 10, 11, 12, 13}
IsD(c) == c \in 48..57
NB(s, from) == LET B == {k \in from..Len(s) : s[k] \notin Blank} IN IF B = {} THEN Len(s) + 1 ELSE CHOOSE k \in B : \A j \in B : k <= j
EndD(s, from) == LET B == {k \in from..Len(s) : ~IsD(s[k])} IN IF B = {} THEN Len(s) + 1 ELSE CHOOSE k \in B : \A j \in B : k <= j
At(s, k) == IF k \in 1..Len(s) THEN s[k] ELSE 0
Vals(s, a, b) == [k \in 1..(b - a) |-> s[a + k - 1] - 48]
RECURSIVE NumVal(_)
NumVal(ds) == IF ds = <<>> THEN 0 ELSE NumVal(SubSeq(ds, 1, Len(ds) - 1)) * 10 + ds[Len(ds)]
Bad == [ok |-> FALSE]
\* integer: [ok, neg, ds (stripped left)]
ReadInt(s) ==
    LET a == NB(s, 1) sg == At(s, a) \in {MINUS, PLUS} b == IF sg THEN a + 1 ELSE a e == EndD(s, b) IN
    IF e = b \/ NB(s, e) <= Len(s) THEN Bad
    ELSE [ok |-> TRUE, neg |-> At(s, a) = MINUS, ds |-> StripL(Vals(s, b, e))]
ReadReal(s) ==
    LET a == NB(s, 1) sg == At(s, a) \in {MINUS, PLUS} b == IF sg THEN a + 1 ELSE a
        c == EndD(s, b) dot == At(s, c) = DOT
        d == IF dot THEN EndD(s, c + 1) ELSE c
        hasd == c > b \/ d > c + 1
        ex == At(s, d) \in {LE, UE}
        esg == ex /\ At(s, d + 1) \in {MINUS, PLUS}
        f == IF esg THEN d + 2 ELSE d + 1
        g == IF ex THEN EndD(s, f) ELSE d
    IN IF ~hasd \/ (ex /\ g = f) \/ NB(s, g) <= Len(s) THEN Bad
       ELSE LET ev == IF ex THEN NumVal(Vals(s, f, g)) ELSE 0
                e == IF esg /\ s[d + 1] = MINUS THEN -ev ELSE ev
                m == Vals(s, b, c) \o (IF dot THEN Vals(s, c + 1, d) ELSE <<>>)
            IN [ok |-> TRUE, v |-> Norm(At(s, a) = MINUS, m, (c - b) + e)]
\* comparison of digit sequences without leading zeros
Leq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
             ELSE a = b \/ LET k == CHOOSE k \in 1..Len(a) : a[k] # b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j] IN a[k] < b[k]
Up(c) == IF c \in 97..122 THEN c - 32 ELSE c
NANS == {<<78,65,78>>, <<43,78,65,78>>, <<45,78,65,78>>}
PINFS == {<<73,78,70>>, <<43,73,78,70>>, <<73,78,70,43>>}
NINFS == {<<45,73,78,70>>, <<73,78,70,45>>}
RECURSIVE ListText(_)
ListText(v) == IF v = <<>> THEN <<>> ELSE IF Len(v) = 1 THEN v[1] ELSE v[1] \o <<44, 32>> \o ListText(Tail(v))
Braced(v) == <<123>> \o ListText(v) \o <<125>>
=============================================================================
