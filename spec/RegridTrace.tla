---------------------------- MODULE RegridTrace -----------------------------
EXTENDS Regrid, TraceLib
Kept_ == {"CTYPE1", "CTYPE2", "CRPIX1", "CRPIX2", "CRVAL1", "CRVAL2", "CDELT1", "CDELT2", "CD1_1", "CD1_2", "CD2_1", "CD2_2", "PC1_1", "PC2_1", "CUNIT1", "CUNIT2", "EQUINOX", "RADECSYS", "LONPOLE", "PV2_1", "END"}
Cell(b, n) == <<(n - 1) % b.d[1], (n - 1) \div b.d[1]>>
Npix(g) == g.d[1] * g.d[2]
\* drizzled planes: weights * 64 b.s^2, values * weights * 64 a.s^2
Driz(e) == LET ex == Exts(e.a, e.b, e.p) IN
    /\ Len(e.w) = Npix(e.b) /\ Len(e.r) = Len(e.img)
    /\ \A n \in 1..Npix(e.b) : LET w == Weight(e.a, e.b, ex, Cell(e.b, n)) IN
        /\ e.w[n] = w
        /\ \A k \in 1..Len(e.img) : e.r[k][n] = IF w = 0 THEN NaN ELSE Flux(e.a, e.b, ex, e.img[k], Cell(e.b, n))
\* the same for turned pixels, * 2 480^2 s^2, to the precision of the projection
Close(x, y) == x # NaN /\ Abs(x - y) <= 40
DrizR(e) == /\ Len(e.w) = Npix(e.b) /\ Len(e.r) = Len(e.img)
    /\ \A n \in 1..Npix(e.b) : LET sh == Shares(e.a, e.b, e.p, Cell(e.b, n)) N == Npix(e.a) w == SumF(sh, N) IN
        /\ Close(e.w[n], w)
        /\ \A k \in 1..Len(e.img) : (w = 0 /\ e.r[k][n] = NaN) \/ Close(e.r[k][n], SumF([m \in 1..N |-> e.img[k][m] * sh[m]], N))
\* interpolated pixel, * 16 a.s^4
Interp(e, n) == LET p == Pos(e.a, e.b, Cell(e.b, n)) u == Unit(e.a)
                    v(x) == IF x = NaN THEN NaN ELSE x * (IF e.flux = 1 THEN e.b.s * e.b.s ELSE e.a.s * e.a.s)
                IN CASE e.how = "nearest" -> Tie(e.a, p) \/ e.r[n] = (IF Inside(e.a, p) THEN LET z == Px(e.a, e.img, Near_(e.a, p, 1), Near_(e.a, p, 2)) IN v(IF z = NaN THEN NaN ELSE u * u * z) ELSE NaN)
                     [] e.how = "linear" -> IF Outside(e.a, p) THEN e.r[n] = NaN ELSE e.r[n] = v(Linear(e.a, e.img, p)) \/ (OnEdge(e.a, p) /\ e.r[n] = NaN)
                     \* (of a plane)
                     [] OTHER -> IF Outside(e.a, p) THEN e.r[n] = NaN ELSE (\E i \in 1..2 : p[i] <= u \/ p[i] >= (e.a.d[i] - 2) * u) \/ e.r[n] = v(Linear(e.a, e.img, p))
CutOk(e) == LET acc == Merge(e.g, e.v, e.h, e.def, 1, <<>>) F == FirstCover(e.g, e.v, e.h) IN
    /\ e.ok = 1 /\ e.good = (IF F = {} THEN 0 ELSE 1)
    /\ e.r = IF F = {} THEN [n \in 1..((2 * e.h + 1) * (2 * e.h + 1)) |-> e.def] ELSE acc
    \* the header: size, and the position of the source (quarters) by its keys and through the projection
    /\ (e.hdr = 1 => /\ e.n = <<2 * e.h + 1, 2 * e.h + 1>>
                     /\ e.x = e.key /\ e.size = 1
                     /\ F # {} => \A i \in F : LET c == Centre(e.g[i], e.v) IN e.key = [k \in 1..2 |-> (4 * (e.h + 1)) + (e.g[i].c[k] + e.v[k] - 4 - (4 * c[k]))])
Old(e) == e.pre
Proj(st, f(_)) == [i \in 1..Len(st) |-> f(st[i])]
StackOk(e) == LET st == Stack(e.g, e.v, e.h, e.keep = 1, 1, 1, <<>>) id(s) == s.id ct(s) == s.cut x(s) == s.dx y(s) == s.dy k(s) == s.sect IN
    /\ e.ok = 1 /\ e.ids = Old(e) \o Proj(st, id) /\ e.cubes = Proj(st, ct)
    /\ e.dx = (IF e.off = 1 THEN Proj(st, x) ELSE <<>>) /\ e.dy = (IF e.off = 1 THEN Proj(st, y) ELSE <<>>)
    /\ e.sect = (IF e.sec = 1 THEN Proj(st, k) ELSE <<>>)
RECURSIVE Keeps(_, _, _)
Keeps(e, g, i) == IF i > Len(e.v) THEN <<>> ELSE (IF Kept(g, e.w, e.v[i], e.h, e.keep = 1) THEN <<i>> ELSE <<>>) \o Keeps(e, g, i + 1)
WStackOk(e) == LET g == e.g[1] ks == Keeps(e, g, 1) d(i, k) == LET c == Centre(g, e.v[i]) IN g.c[k] + e.v[i][k] - 4 - (4 * c[k]) IN
    /\ e.ok = 1 /\ e.ids = [j \in 1..Len(ks) |-> ks[j] - 1]
    /\ e.cubes = [j \in 1..Len(ks) |-> Cut(g, g.p, Centre(g, e.v[ks[j]]), e.h, NaN)]
    /\ e.wcubes = [j \in 1..Len(ks) |-> Cut(g, e.w, Centre(g, e.v[ks[j]]), e.h, NaN)]
    /\ e.dx = (IF e.off = 1 THEN [j \in 1..Len(ks) |-> d(ks[j], 1)] ELSE <<>>) /\ e.dy = (IF e.off = 1 THEN [j \in 1..Len(ks) |-> d(ks[j], 2)] ELSE <<>>)
    /\ e.sect = (IF e.sec = 1 THEN [j \in 1..Len(ks) |-> 0] ELSE <<>>)
Accept(e) ==
    IF e.op = "crash" THEN FALSE
    ELSE CASE e.op = "driz" -> e.ok = 1 /\ Driz(e)
      [] e.op = "interp" -> e.ok = 1 /\ Len(e.r) = Npix(e.b) /\ \A n \in 1..Npix(e.b) : Interp(e, n)
      [] e.op = "drizr" -> e.ok = 1 /\ DrizR(e)
      [] e.op = "bad" -> e.ok # 1
      [] e.op = "cut" -> CutOk(e)
      [] e.op = "stack" -> StackOk(e)
      [] e.op = "wstack" -> WStackOk(e)
      \* the same sections for image and weights: both stacks, together
      [] e.op = "wsect" -> StackOk(e) /\ e.wcubes = [i \in 1..Len(e.cubes) |-> [n \in 1..Len(e.cubes[i]) |-> IF e.cubes[i][n] = NaN THEN NaN ELSE e.cubes[i][n] + 100]]
      \* weighted mean of the pixels of a stack, times the weights
      [] e.op = "wmean" -> e.ok = 1 /\ Len(e.r) = Len(e.f[1]) /\ \A n \in 1..Len(e.f[1]) : e.r[n] = SumF([i \in 1..Len(e.f) |-> e.f[i][n] * e.w[i][n]], Len(e.f))
      \* bootstraps: nsel sources of the stack each time, with their own weights
      [] e.op = "boot" -> e.ok = 1 /\ Len(e.r) = e.nb /\ \A b \in 1..Len(e.r) : Len(e.r[b]) = e.ns /\ \A j \in 1..e.ns : e.r[b][j][1] \in 1..e.n /\ e.r[b][j][2] = 100 + e.r[b][j][1]
      \* means and medians of bootstraps: within the range of the stack, e.nb of them
      [] e.op = "bootm" -> e.ok = 1 /\ Len(e.r) = e.nb /\ \A b \in 1..Len(e.r) : e.r[b] >= 1000 /\ e.r[b] <= 1000 * e.n /\ (e.ns = 1 => e.r[b] % 1000 = 0)
      \* the keywords kept for the projection, in order
      [] e.op = "filter" -> e.ok = 1 /\ e.r = SelectSeq(e.k, LAMBDA k : k \in Kept_)
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
