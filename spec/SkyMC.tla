------------------------------- MODULE SkyMC -------------------------------
(* Laws of the definitions, for all triples of positions on a coarse grid   *)
(* and all times of a coarse clock.                                         *)
EXTENDS Sky
CONSTANT Step       \* degrees
VARIABLES p, q, t
Grid == {<<Step * Deg * a, Step * Deg * b>> : a \in -4..8, b \in -2..2}
Init == p \in Grid /\ q \in Grid /\ t \in {<<h, m, s>> : h \in {0, 1, 23}, m \in {0, 9, 59}, s \in {0, 5, 59}}
Next == UNCHANGED <<p, q, t>>
Spec == Init /\ [][Next]_<<p, q, t>>
S(a, b) == Sep(a[1], a[2], b[1], b[2])
X(a, b) == Exact(a[1], a[2], b[1], b[2])
Symmetric == X(p, q) <=> X(q, p)
Zero == X(p, q) => /\ S(p, q) = S(q, p) /\ S(p, q) \in 0..Half
                   /\ (S(p, q) = 0 <=> (p[2] = q[2] /\ (Pole(p[2]) \/ OnMeridian(p[1], q[1]))))
Triangle == \A r \in {<<0, 0>>, <<0, Quarter>>, <<Quarter, 0>>, <<Half, 0>>} : X(p, q) /\ X(p, r) /\ X(r, q) => S(p, q) <= S(p, r) + S(r, q)
\* a position whose declination went beyond a pole has one representation, at no distance of the other
Normal == \A k \in -1..1 : LET d == p[2] + k * Half n == Wrap(d) r == (p[1] + (IF n[2] THEN Half ELSE 0)) % Full IN
          IsNormal(p[1], d, r, n[1]) /\ IsNormal(r, n[1], r, n[1])
D2(x) == <<48 + x \div 10, 48 + (x % 10)>>
Text(neg) == (IF neg THEN <<45>> ELSE <<>>) \o D2(t[1]) \o <<58>> \o D2(t[2]) \o <<58>> \o D2(t[3]) \o <<46, 53>>
Written == /\ WellWritten(Text(FALSE)) /\ WellWritten(Text(TRUE)) /\ SexValue(Text(TRUE), 15) = -SexValue(Text(FALSE), 15)
           /\ SexValue(Text(FALSE), 1) = t[1] * Deg + t[2] * (Deg \div 60) + t[3] * 500 + 250
=============================================================================
