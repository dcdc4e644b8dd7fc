------------------------------ MODULE SkyTrace ------------------------------
EXTENDS Sky, TraceLib
SameLen(e) == Len(e.ra) = Len(e.de)
Each(e) == 1..Len(e.ra)
\* separations: exact where they are known, otherwise as measured (m)
DistOk(e, i, v) == /\ Near(v, e.m[i], 5)
                   /\ Exact(e.ra[i], e.de[i], e.ra2[i], e.de2[i]) => Near(v, Sep(e.ra[i], e.de[i], e.ra2[i], e.de2[i]), 5)
Accept(e) ==
    IF e.op = "crash" THEN FALSE
    ELSE CASE e.op = "dist" -> e.ok = 1 /\ Len(e.r) = Len(e.ra) /\ e.rd = e.d /\ \A i \in Each(e) : DistOk(e, i, e.r[i])
      [] e.op = "less" -> e.ok = 1 /\ Len(e.r) = Len(e.ra) /\ e.rd = e.d
                          /\ \A i \in Each(e) : IF Abs(e.m[i] - e.rad) <= 5 THEN TRUE ELSE e.r[i] = (IF e.m[i] < e.rad THEN 1 ELSE 0)
      [] e.op = "norm" -> e.ok = 1 /\ Len(e.r) = Len(e.ra) /\ \A i \in Each(e) : IsNormal(e.ra[i], e.de[i], e.r[i], e.r2[i])
      \* cosd: twice the cosine of the declination
      [] e.op = "move" -> e.ok = 1 /\ Len(e.r) = Len(e.ra) /\ \A i \in Each(e) :
                          Near(e.r[i], e.ra[i] + (IF e.de[i] = 0 THEN 1 ELSE 2) * e.dra, 1) /\ Near(e.r2[i], e.de[i] + e.dde, 1)
      [] e.op = "mismatch" -> e.ok # 1
      \* rotation around the origin of the coordinates: separations are kept (d1, d2: all pairs, before and after; the
      \* first two are the origin and RA = 90 degrees on the equator)
      [] e.op = "rot" -> /\ e.ok = 1 /\ Len(e.d1) = Len(e.d2)
                         /\ \A k \in 1..Len(e.d1) : Near(e.d1[k], e.d2[k], 12)
                         /\ \A i \in 1..Len(e.r) : e.r[i] \in 0..Full /\ e.r2[i] \in (-Quarter)..Quarter
                         /\ Near(e.r2[1], 0, 5) /\ (Near(e.r[1], 0, 5) \/ Near(e.r[1], Full, 5))
                         /\ Near(e.r2[2], Wrap(e.e)[1], 12)
                         /\ Abs(e.r2[2]) < 89 * Deg => Near(e.r[2], IF Wrap(e.e)[2] THEN 270 * Deg ELSE Quarter, 12)
      [] e.op = "vernal" -> e.ok = 1 /\ Near(e.v, 0, 12)
      [] e.op = "sex2deg" -> /\ e.ok = 1 /\ Len(e.r) = Len(e.s1) /\ e.rd = e.d
                             /\ \A i \in 1..Len(e.s1) :
                                IF IsSex(e.s1[i]) /\ IsSex(e.s2[i])
                                THEN e.r[i] = 1 /\ Near(e.ra[i], SexValue(e.s1[i], 15), 2) /\ Near(e.de[i], SexValue(e.s2[i], 1), 2)
                                ELSE e.r[i] = 0 /\ e.ra[i] = VNAN /\ e.de[i] = VNAN
      [] e.op = "deg2sex" -> /\ e.ok = 1 /\ Len(e.s1) = Len(e.ra) /\ Len(e.s2) = Len(e.ra)
                             /\ \A i \in Each(e) : /\ WellWritten(e.s1[i]) /\ Near(SexValue(e.s1[i], 15), e.ra[i], 2)
                                                   /\ WellWritten(e.s2[i]) /\ Near(SexValue(e.s2[i], 1), e.de[i], 2)
      \* magnitudes (thousandths) of 10^k microjanskys, and back; other conversions go and come back (parts per million)
      [] e.op = "mag" -> e.ok = 1 /\ Near(e.r, e.zp - 2500 * e.k, 1) /\ Near(e.back, 1000000, 1)
      [] e.op = "unit" -> e.ok = 1 /\ Near(e.f, e.expect, e.expect \div 100000 + 1) /\ \A i \in 1..Len(e.back) : Near(e.back[i], 1000000, 2)
      \* distances in units of c/H0 / 10^6 where they have a closed form
      [] e.op = "einstein" -> e.ok = 1 /\ Near(e.dl * e.s, 2 * (e.s * e.s) * (e.s - 1) * 100000, 500)      \* matter only, 1+z = s^2
                              /\ Near(e.lb * 3 * (e.s * e.s * e.s), 2 * (e.s * e.s * e.s - 1) * 100000, 500 * e.s * e.s * e.s)
      [] e.op = "desitter" -> e.ok = 1 /\ Near(e.dl, e.z * (e.z + 1) * 100000, 20)      \* cosmological constant only
      [] e.op = "cosmo" -> e.ok = 1 /\ e.bad = 0 /\ e.rd = e.d /\ e.inc = 1
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
