------------------------------- MODULE ConvMC -------------------------------
(* All small numbers: writing then reading gives the number back, at any      *)
(* precision that keeps all digits; rounding errors are at most half a unit.  *)
EXTENDS Conv
CONSTANTS M, X
VARIABLES v, p, s
Nums == {Norm(n, DigitsOf(m), x) : n \in {FALSE, TRUE}, m \in 0..M, x \in (-X)..X}
Texts == UNION {[1..l -> {49, 48, 46, 101, 45, 32}] : l \in 0..4}
Init == (v \in Nums /\ p \in 0..4 /\ s = <<>>) \/ (v = Norm(FALSE, <<>>, 0) /\ p = 0 /\ s \in Texts)
Spec == Init /\ [][FALSE]_<<v, p, s>>
Nd == Len(v.ds)
Back(t) == ReadReal(t).ok /\ ReadReal(t).v = v
RoundTripGen == p >= Nd => \A t \in GenTexts(v, p) : Back(t)
RoundTripSci == p + 1 >= Nd => \A t \in SciTexts(v, p) : Back(t)
RoundTripFix == p >= Nd - v.x => \A t \in FixedTexts(v, p) : Back(t)
\* the fixed text has p digits after the point, the scientific one too
FixShape == \A t \in FixedTexts(v, p) : IF p = 0 THEN \A k \in 1..Len(t) : t[k] # DOT ELSE t[Len(t) - p] = DOT
SciShape == \A t \in SciTexts(v, p) : t[IF v.neg THEN 3 ELSE 2] = (IF p = 0 THEN LE ELSE DOT)
\* no useless digits
GenShort == \A t \in GenTexts(v, p) : Len(SelectSeq(t, IsD)) <= 12 /\ (\E k \in 1..Len(t) : t[k] = DOT) => t[Len(t)] # 48 \/ \E k \in 1..Len(t) : t[k] = LE
\* an integer text is a real text of the same value, and blanks around do not matter
IntIsReal == ReadInt(s).ok => ReadReal(s).ok /\ Norm(ReadInt(s).neg, ReadInt(s).ds, Len(ReadInt(s).ds)) = ReadReal(s).v
Blanks == ReadReal(s) = ReadReal(<<32>> \o s \o <<9>>)
=============================================================================
