------------------------------- MODULE WcsMC --------------------------------
(* Laws of the world coordinates, for all small headers.                     *)
EXTENDS Wcs
CONSTANT R
VARIABLES h, p
Mats == {<<<<5, 0>>, <<0, 5>>>>, <<<<-5, 0>>, <<0, 5>>>>, <<<<0, 5>>, <<-5, 0>>>>, <<<<4, 3>>, <<-3, 4>>>>, <<<<-4, 3>>, <<3, 4>>>>, <<<<0, 5>>, <<5, 0>>>>}
Orders == {<<"ra", "dec">>, <<"dec", "ra">>, <<"wave", "ra", "dec">>, <<"dec", "wave", "ra">>, <<"ra", "dec", "freq">>}
Init == \E k \in Orders, m \in Mats, a \in -R..R, b \in -R..R, d \in {-60, 0, 60}, ra \in {0, 10, 359}, s \in 1..2 :
          /\ h = [kind |-> k, m |-> m, scale |-> s, crpix |-> [i \in 1..Len(k) |-> i], unit |-> [i \in 1..Len(k) |-> 1],
                  crval |-> [i \in 1..Len(k) |-> IF k[i] = "ra" THEN ra ELSE IF k[i] = "dec" THEN d ELSE 7], cdelt |-> [i \in 1..Len(k) |-> 3]]
          /\ p = <<a, b>>
Next == UNCHANGED <<h, p>>
Spec == Init /\ [][Next]_<<h, p>>
Axes == XAxis(h) < YAxis(h) /\ {XAxis(h), YAxis(h)} = {Find(h, "ra"), Find(h, "dec")}
\* the reference pixel has the reference value
Reference == LET x == h.crpix[XAxis(h)] y == h.crpix[YAxis(h)] IN Ra(h, x, y) = h.crval[Find(h, "ra")] * Deg /\ Dec(h, x, y) = h.crval[Find(h, "dec")] * Deg
\* distances are preserved up to the scale
Isometry == LET x == h.crpix[XAxis(h)] + p[1] y == h.crpix[YAxis(h)] + p[2] u == Offset(h, XAxis(h), x, y) v == Offset(h, YAxis(h), x, y)
            IN u * u + v * v = 25 * h.scale * h.scale * (p[1] * p[1] + p[2] * p[2])
\* moving north changes only the declination
NorthOk == LET n == North(h) x == h.crpix[XAxis(h)] y == h.crpix[YAxis(h)] IN
           /\ Offset(h, Find(h, "ra"), x + n[1], y + n[2]) = 0 /\ Offset(h, Find(h, "dec"), x + n[1], y + n[2]) = 25 * h.scale
\* every axis has exactly one of native and default units
Units == \A i \in 1..Len(h.kind) : UnitOk(h, i, "native") # UnitOk(h, i, "default") /\ (UnitOk(h, i, "wave") => ~UnitOk(h, i, "freq"))
=============================================================================
