------------------------------ MODULE ImageMC ------------------------------
(* Laws of the image operations, for all small images.                      *)
EXTENDS Image
CONSTANTS N, V      \* side, largest value
VARIABLES m, a, b
Dims == {<<x, y>> : x \in 1..N, y \in 1..N}
Images == UNION {{Img(d, v) : v \in [1..(d[1] * d[2]) -> 0..V]} : d \in Dims}
Init == m \in Images /\ a \in -N..N /\ b \in -N..N
Next == UNCHANGED <<m, a, b>>
Spec == Init /\ [][Next]_<<m, a, b>>
U == <<Abs(a), Abs(b), 1, 0>>
GrowShrink == ShrinkFits(Enlarge(m, U, 5), U) /\ Shrink(Enlarge(m, U, 5), U) = m
Flips == FlipX(FlipX(m)) = m /\ FlipY(FlipY(m)) = m /\ FlipX(FlipY(m)) = FlipY(FlipX(m))
ShiftBack == Shift(Shift(m, a, b), -a, -b) = m /\ Shift(m, a + m.d[1], b) = Shift(m, a, b)
\* a translation is the shift where both are defined
TransShift == \A p \in Pixels(m.d) : Inside(m.d, p[1] - a, p[2] - b) => At(Translate(m, a, b, 9), p[1], p[2]) = At(Shift(m, a, b), p[1], p[2])
Centred == Recenter(m, m.d[1] \div 2, m.d[2] \div 2, m.d, 9) = m
Cover == RegionPixels(m.d, <<0, 0, m.d[1] - 1, m.d[2] - 1>>) = Pixels(m.d)
\* the identity kernel does nothing, a kernel with one pixel off the centre translates
K(x, y) == Make(<<3, 3>>, LAMBDA i, j : IF i = x /\ j = y THEN 1 ELSE 0)
ConvId == Convolved(m, K(1, 1), FALSE) = m /\ Convolved(m, K(2, 1), FALSE) = Translate(m, 1, 0, 0) /\ Convolved(m, K(1, 0), TRUE) = Shift(m, 0, -1)
Bit == Make(m.d, LAMBDA x, y : IF At(m, x, y) = 0 THEN 0 ELSE 1)
Inflated == /\ Inflate(m, 0) = Bit /\ Inflate(Inflate(m, 1), 1) = Inflate(m, 2)
Segments == LET on == {p \in Pixels(m.d) : At(m, p[1], p[2]) # 0} cs == Components(on) IN
    /\ UNION cs = on /\ \A c \in cs : Connected(c) /\ c # {} /\ \A c2 \in cs : c = c2 \/ \A p \in c : \A q \in c2 : Dist1(p, q) > 1
=============================================================================
