-------------------------------- MODULE Sky --------------------------------
(* Positions on the sky, as integers: the unit is 2 milliarcsec.           *)
EXTENDS Integers, Sequences

VNAN == 2000000001
Deg == 1800000
Full == 360 * Deg
Half == 180 * Deg
Quarter == 90 * Deg
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == a < 2000000000 /\ b < 2000000000 /\ Abs(a - b) <= t

\* ---- separations -------------------------------------------------------
\* separation of two right ascensions, in 0..180 degrees
Fold(a) == LET m == a % Full IN IF m > Half THEN Full - m ELSE m
\* is the separation of two positions an exact number here, and which
OnMeridian(r1, r2) == (r1 - r2) % Full = 0
Opposite(r1, r2) == (r1 - r2) % Full = Half
Pole(d) == Abs(d) = Quarter
Exact(r1, d1, r2, d2) == OnMeridian(r1, r2) \/ Opposite(r1, r2) \/ (d1 = 0 /\ d2 = 0) \/ Pole(d1) \/ Pole(d2)
Sep(r1, d1, r2, d2) ==
    IF Pole(d1) \/ Pole(d2) \/ OnMeridian(r1, r2) THEN Abs(d1 - d2)
    ELSE IF Opposite(r1, r2) THEN Half - Abs(d1 + d2)
    ELSE Fold(r1 - r2)

\* ---- standard representation --------------------------------------------
\* declination d, brought in [-90,90], and whether it went over a pole
Wrap(d) == LET m == ((d + Half) % Full) - Half IN
           IF m > Quarter THEN <<Half - m, TRUE>> ELSE IF m < -Quarter THEN <<-Half - m, TRUE>> ELSE <<m, FALSE>>
IsNormal(r, d, nr, nd) ==
    LET w == Wrap(d) IN
    /\ nr \in 0..Full /\ nd = w[1]
    /\ Pole(nd) \/ (nr - r - (IF w[2] THEN Half ELSE 0)) % Full = 0

\* ---- sexagesimal text -----------------------------------------------------
IsDigit(c) == c \in 48..57
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
RECURSIVE Nat10(_)
Nat10(s) == IF s = <<>> THEN 0 ELSE 10 * Nat10(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
\* fields separated by ':'
RECURSIVE Fields(_, _)
Fields(s, cur) == IF s = <<>> THEN <<cur>> ELSE IF Head(s) = 58 THEN <<cur>> \o Fields(Tail(s), <<>>) ELSE Fields(Tail(s), Append(cur, Head(s)))
Signed(s) == IF s # <<>> /\ Head(s) \in {43, 45} THEN Tail(s) ELSE s
Dot(s) == LET p == {i \in 1..Len(s) : s[i] = 46} IN IF p = {} THEN 0 ELSE CHOOSE i \in p : \A j \in p : i <= j
IntPart(s) == IF Dot(s) = 0 THEN s ELSE SubSeq(s, 1, Dot(s) - 1)
FracPart(s) == IF Dot(s) = 0 THEN <<>> ELSE SubSeq(s, Dot(s) + 1, Len(s))
IsDecimal(s) == AllDigits(IntPart(s)) /\ (Dot(s) > 0 => AllDigits(FracPart(s)))
IsSex(s) == LET f == Fields(s, <<>>) IN Len(f) = 3 /\ AllDigits(Signed(f[1])) /\ AllDigits(f[2]) /\ IsDecimal(f[3])
\* the fraction, in units of 1/10000
Frac4(s) == LET f == [i \in 1..4 |-> IF i <= Len(s) THEN s[i] ELSE 48] IN Nat10(f)
\* value of the text; a unit of the first field is a degree (k = 1) or an hour (k = 15)
SexValue(s, k) == LET f == Fields(s, <<>>)
                      w == Nat10(Signed(f[1])) * 3600 + Nat10(f[2]) * 60 + Nat10(IntPart(f[3]))
                      v == w * 500 * k + (Frac4(FracPart(f[3])) * k) \div 20
                  IN IF f[1][1] = 45 THEN -v ELSE v
\* as written by the library: two digits of minutes and seconds, below 60
WellWritten(s) == /\ IsSex(s)
                  /\ LET f == Fields(s, <<>>) IN Len(f[2]) = 2 /\ Nat10(f[2]) < 60 /\ Len(IntPart(f[3])) = 2 /\ Nat10(IntPart(f[3])) < 60
=============================================================================
