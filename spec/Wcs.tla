-------------------------------- MODULE Wcs ---------------------------------
(* World coordinates of images: a header gives, for each axis (in FITS       *)
(* order), what it measures, its reference pixel (in halves) and value; two  *)
(* axes are on the sky (gnomonic, so linear near the reference), related by  *)
(* a rotation or reflection in fifths times the pixel scale (in 0.1 arcsec). *)
(* Angles are in units of 10 milliarcseconds.                                *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Deg == 360000
Turn == 360 * Deg
Find(h, k) == CHOOSE i \in 1..Len(h.kind) : h.kind[i] = k
Sky(h) == {i \in 1..Len(h.kind) : h.kind[i] \in {"ra", "dec"}}
\* x is the first axis on the sky, y the second one
XAxis(h) == CHOOSE i \in Sky(h) : \A j \in Sky(h) : i <= j
YAxis(h) == CHOOSE i \in Sky(h) : \A j \in Sky(h) : i >= j
\* offset along the world axis i, of the pixel (x, y) in halves
Offset(h, i, x, y) == LET r == IF i = XAxis(h) THEN 1 ELSE 2 IN
    h.scale * (h.m[r][1] * (x - h.crpix[XAxis(h)]) + h.m[r][2] * (y - h.crpix[YAxis(h)]))
\* 1 / cos(dec) of the reference, which is 0, 60 or -60 degrees
Stretch(h) == IF h.crval[Find(h, "dec")] = 0 THEN 1 ELSE 2
Dec(h, x, y) == h.crval[Find(h, "dec")] * Deg + Offset(h, Find(h, "dec"), x, y)
Ra(h, x, y) == (h.crval[Find(h, "ra")] * Deg + Stretch(h) * Offset(h, Find(h, "ra"), x, y)) % Turn
\* the direction of increasing declination on the image, in fifths
North(h) == h.m[IF Find(h, "dec") = XAxis(h) THEN 1 ELSE 2]
\* a linear axis: value at x (in halves), twice, in the unit of the header
Value2(h, i, x) == 2 * h.crval[i] + h.cdelt[i] * (x - h.crpix[i])
\* (no unit in the header: SI for the kinds that are recognised)
\* may values along axis i be asked in the unit u?  units: native, default, wave, freq, sky
UnitOk(h, i, u) == /\ i \in 1..Len(h.kind)
                   /\ (u = "native") <=> (h.unit[i] = 0 /\ h.kind[i] = "lin")
                   /\ CASE u = "wave" -> h.kind[i] \in {"wave", "lin"} [] u = "freq" -> h.kind[i] \in {"freq", "lin"} [] u = "sky" -> h.kind[i] \in {"ra", "dec", "lin"} [] OTHER -> TRUE

\* ---- headers from simple parameters: keep the last value of each ----------
None == -999999
Bad == 2000000005
RECURSIVE LastOf(_, _, _, _)
LastOf(ps, name, k, i) == IF i = 0 THEN None ELSE IF ps[i].name = name THEN ps[i].v[k] ELSE LastOf(ps, name, k, i - 1)
Count(name) == IF name = "pixel_scale" THEN 1 ELSE 2
ParamOk(p) == p.name \in {"pixel_scale", "pixel_ref", "sky_ref", "dims"} /\ p.form = 1 /\ Len(p.v) = Count(p.name) /\ \A i \in 1..Len(p.v) : p.v[i] # Bad
\* the keys CDELT1/2, CRPIX1/2, CRVAL1/2, NAXIS1/2
Keys(ps) == LET g(name, k) == LastOf(ps, name, k, Len(ps)) s == g("pixel_scale", 1)
            IN <<IF s = None THEN None ELSE -s, s, g("pixel_ref", 1), g("pixel_ref", 2), g("sky_ref", 1), g("sky_ref", 2), g("dims", 1), g("dims", 2)>>
=============================================================================
