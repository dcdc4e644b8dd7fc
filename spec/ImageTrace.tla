----------------------------- MODULE ImageTrace -----------------------------
EXTENDS Image, TraceLib
VNAN == 2000000001
SeqSet(s) == {s[i] : i \in 1..Len(s)}
M(e) == Img(e.d, e.v)
Is(e, m) == e.ok = 1 /\ e.rd = m.d /\ e.r = m.v
Near(a, b, t) == a < 2000000000 /\ Abs(a - b) <= t
NoDup(s) == Cardinality(SeqSet(s)) = Len(s)
\* segmentation map r of the components cs, of which those in keep are listed
SegOk(e) ==
    LET on == {p \in Pixels(e.d) : At(M(e), p[1], p[2]) # 0}
        cs == Components(on)
        keep == {c \in cs : Cardinality(c) >= e.min}
        R == Img(e.rd, e.r)
        n == Len(e.id)
        Of(k) == CHOOSE c \in keep : \E p \in c : Flat(e.d, p) = e.origin[k]
    IN /\ e.ok = 1 /\ e.rd = e.d /\ Len(e.r) = Len(e.v)
       /\ n = Cardinality(keep) /\ Len(e.area) = n /\ Len(e.origin) = n /\ Len(e.px) = n /\ Len(e.py) = n
       /\ NoDup(e.id) /\ \A k \in 1..n : e.id[k] \in e.first..(e.first + Cardinality(cs) - 1)
       /\ \A k \in 1..n : \E c \in keep : \E p \in c : Flat(e.d, p) = e.origin[k]
       /\ \A k \in 1..n : LET c == Of(k) a == Cardinality(c) IN
             /\ e.area[k] = a /\ \A p \in c : At(R, p[1], p[2]) = e.id[k] /\ Flat(e.d, p) >= e.origin[k]
             /\ Near(e.px[k] * a, 1000 * SumOver(c, LAMBDA p : p[2]), a) /\ Near(e.py[k] * a, 1000 * SumOver(c, LAMBDA p : p[1]), a)
       /\ \A p \in Pixels(e.d) : ~(\E c \in keep : p \in c) => At(R, p[1], p[2]) = 0
\* deblended segments: what is listed describes the map
DeblendOk(e) ==
    LET R == Img(e.rd, e.r) n == Len(e.id) IN
    /\ e.ok = 1 /\ e.rd = e.d /\ NoDup(e.id) /\ 0 \notin SeqSet(e.id)
    /\ Len(e.area) = n /\ Len(e.origin) = n /\ Len(e.flux) = n /\ Len(e.px) = n /\ Len(e.py) = n
    /\ SeqSet(e.r) \subseteq SeqSet(e.id) \cup {0}
    /\ \A k \in 1..n : LET S == OfValue(R, e.id[k]) f == SumOver(S, LAMBDA p : At(M(e), p[1], p[2])) IN
          /\ S # {} /\ Connected(S) /\ e.area[k] = Cardinality(S) /\ e.area[k] >= e.min /\ e.flux[k] = f
          /\ e.origin[k] = e.py[k] * e.d[2] + e.px[k] /\ <<e.py[k], e.px[k]>> \in S
          /\ e.min <= 1 => \A p \in S : At(M(e), p[1], p[2]) <= At(M(e), e.py[k], e.px[k])
          /\ Near(e.by[k] * f, 1000 * SumOver(S, LAMBDA p : p[1] * At(M(e), p[1], p[2])), f)
          /\ Near(e.bx[k] * f, 1000 * SumOver(S, LAMBDA p : p[2] * At(M(e), p[1], p[2])), f)
    /\ \A p \in Pixels(e.d) : At(M(e), p[1], p[2]) < e.th => At(R, p[1], p[2]) = 0
\* every pixel is given to a segment pixel which no neighbor would improve
GrownOk(e) ==
    LET seg == {p \in Pixels(e.d) : At(M(e), p[1], p[2]) # 0}
        Seed(p) == <<At(Img(e.d, e.imap), p[1], p[2]) \div e.d[2], At(Img(e.d, e.imap), p[1], p[2]) % e.d[2]>> IN
    /\ e.ok = 1 /\ e.rd = e.d /\ Len(e.imap) = Len(e.v) /\ Len(e.dist) = Len(e.v)
    /\ seg # {} => \A p \in Pixels(e.d) :
          /\ At(Img(e.d, e.imap), p[1], p[2]) \in 0..(Len(e.v) - 1) /\ Seed(p) \in seg
          /\ e.r[Flat(e.d, p) + 1] = At(M(e), Seed(p)[1], Seed(p)[2])
          /\ e.dist[Flat(e.d, p) + 1] = Dist2(p, Seed(p))
          /\ p \in seg => Seed(p) = p
          /\ \A q \in {<<p[1] - 1, p[2]>>, <<p[1] + 1, p[2]>>, <<p[1], p[2] - 1>>, <<p[1], p[2] + 1>>} \cap Pixels(e.d) :
                Dist2(p, Seed(p)) <= Dist2(p, Seed(q))
Resample(e, X(_, _), Y(_, _)) ==
    e.ok = 1 /\ e.rd = e.d /\ \A p \in Pixels(e.d) :
       LET x4 == X(p[1], p[2]) y4 == Y(p[1], p[2]) r == e.r[Flat(e.d, p) + 1] IN
       /\ Between(e.d, x4, y4) => Near(r, Value16(M(e), x4, y4), 0)
       /\ Beyond(e.d, x4, y4) => r = 16 * e.def
Accept(e) ==
    IF e.op = "crash" THEN FALSE
    ELSE CASE e.op = "enlarge" -> Is(e, Enlarge(M(e), e.u, e.def))
      [] e.op = "shrink" -> IF ShrinkFits(M(e), e.u) THEN Is(e, Shrink(M(e), e.u)) ELSE e.ok = 1 /\ e.r = <<>>
      [] e.op = "window" -> Is(e, Window(M(e), e.reg[1], e.reg[2], <<e.reg[3] - e.reg[1] + 1, e.reg[4] - e.reg[2] + 1>>, e.def))
      [] e.op = "region" -> IF Len(e.reg) # 4 THEN e.ok # 1 ELSE
                            LET P == RegionPixels(e.d, e.reg) IN
                            e.ok = 1 /\ Len(e.r) = Cardinality(P) /\ Len(e.r2) = Len(e.r)
                            /\ {<<e.r[i], e.r2[i]>> : i \in 1..Len(e.r)} = {<<Flat(e.d, p), InRegion(e.reg, p)>> : p \in P}
      [] e.op = "flipx" -> Is(e, FlipX(M(e)))
      [] e.op = "flipy" -> Is(e, FlipY(M(e)))
      [] e.op = "shift" -> Is(e, Shift(M(e), e.a, e.b))
      [] e.op = "transint" -> Is(e, Translate(M(e), e.a, e.b, e.def))
      [] e.op = "recenter" -> Is(e, Recenter(M(e), e.a, e.b, e.nd, e.def))
      [] e.op = "translate" -> Resample(e, LAMBDA x, y : 4 * x - e.a, LAMBDA x, y : 4 * y - e.b)
      \* factor: 4 / f4
      [] e.op = "scale" -> Resample(e, LAMBDA x, y : (x - e.d[1] \div 2) * e.f4 + 4 * (e.d[1] \div 2), LAMBDA x, y : (y - e.d[2] \div 2) * e.f4 + 4 * (e.d[2] \div 2))
      [] e.op = "rotate" -> LET h1 == e.d[1] \div 2 h2 == e.d[2] \div 2 ca == IF e.q = 0 THEN 1 ELSE IF e.q = 2 THEN -1 ELSE 0 sa == IF e.q = 1 THEN 1 ELSE IF e.q = 3 THEN -1 ELSE 0
                                X(x, y) == (x - h1) * ca - (y - h2) * sa + h1  Y(x, y) == (y - h2) * ca + (x - h1) * sa + h2 IN
                            e.ok = 1 /\ e.rd = e.d /\ \A p \in Pixels(e.d) :
                               LET x == X(p[1], p[2]) y == Y(p[1], p[2]) IN
                               /\ (x > 0 /\ y > 0 /\ x < e.d[1] - 1 /\ y < e.d[2] - 1) => e.r[Flat(e.d, p) + 1] = 16 * At(M(e), x, y)
                               /\ ~Inside(e.d, x, y) => e.r[Flat(e.d, p) + 1] = 16 * e.def
      [] e.op = "circle" -> IF e.rad < 0 THEN e.ok # 1 ELSE Is(e, Make(e.d, LAMBDA x, y : Corners(x, y, e.rad, e.x, e.y)))
      [] e.op = "radial" -> e.ok = 1 /\ Len(e.r) = e.n /\ e.r[1] = 1000 * At(M(e), e.d[1] \div 2, e.d[2] \div 2)
                            /\ \A i \in 1..(e.n - 1) : LET w == SumOver(Pixels(e.d), LAMBDA p : Ring(e.d, i, p)) IN
                               IF w = 0 THEN e.r[i + 1] = VNAN
                               ELSE Near(e.r[i + 1] * w, 1000 * SumOver(Pixels(e.d), LAMBDA p : Ring(e.d, i, p) * At(M(e), p[1], p[2])), w)
      [] e.op = "gen" -> Is(e, Make(e.d, LAMBDA x, y : e.a * x + e.b * y + 7))
      [] e.op = "conv" -> IF e.kd[1] % 2 = 0 \/ e.kd[2] % 2 = 0 THEN e.ok # 1 ELSE Is(e, Convolved(M(e), Img(e.kd, e.k), e.cyclic = 1))
      [] e.op = "boxcar" -> /\ e.ok = 1 /\ e.rd = e.d
                            /\ \A p \in Pixels(e.d) : LET B == Box(e.d, e.h, p[1], p[2]) IN
                               e.r[Flat(e.d, p) + 1] = 100 * SumOver(B, LAMBDA q : At(M(e), q[1], q[2])) + Cardinality(B)
      [] e.op = "inflate" -> Is(e, Inflate(M(e), e.k))
      [] e.op = "segment" -> IF e.first = 0 THEN e.ok # 1 ELSE SegOk(e)
      [] e.op = "foreach" -> /\ e.ok = 1 /\ Len(e.r) = Len(e.mids)
                             /\ \A k \in 1..Len(e.mids) :
                                LET p == <<e.mids[k] \div e.d[2], e.mids[k] % e.d[2]>> c == Component(OfValue(M(e), At(M(e), p[1], p[2])), p) IN
                                e.r[k][1] = k - 1 /\ LET s == SubSeq(e.r[k], 2, Len(e.r[k])) IN NoDup(s) /\ SeqSet(s) = {Flat(e.d, q) : q \in c}
      [] e.op = "deblend" -> IF e.first = 0 THEN e.ok # 1 ELSE DeblendOk(e)
      [] e.op = "grow" -> GrownOk(e)
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
