---------------------------- MODULE LinAlgTrace ----------------------------
EXTENDS LinAlg, TraceLib
Big == 2000000000
\* r is num / den in units of 1/s, up to rounding to the unit
Frac(r, num, den) == LET d == Abs(den) IN Abs(r) < Big \div d /\ Abs(r * den - num) <= d
FracM(R, n, m, N(_, _), den) == Len(R) = n /\ \A i \in 1..n : Len(R[i]) = m /\ \A j \in 1..m : Frac(R[i][j], N(i, j), den)
Small(M) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : Abs(M[i][j]) < 100000
Near(a, b, t) == Abs(a) < Big /\ Abs(a - b) <= t
Shape(M, n, m) == Len(M) = n /\ \A i \in 1..n : Len(M[i]) = m
\* does the method have to work on A (1), fail (0), or is it left open (2)?
Must(f, A) == CASE f \in {"chol"} -> IF PosDef(A) THEN 1 ELSE IF \E n \in 1..Len(A) : Det(Lead(A, n)) < 0 /\ \A k \in 1..(n - 1) : Det(Lead(A, k)) > 0 THEN 0 ELSE 2
                [] f \in {"lunp"} -> IF \A d \in LeadMinors(A) : d # 0 THEN 1 ELSE 2
                [] OTHER -> IF Det(A) # 0 THEN 1 ELSE IF ZeroLine(A) THEN 0 ELSE 2
Square(e) == Len(e.a) = Cols(e.a)
Orth(Q, s, t) == \A i, j \in 1..Len(Q) : Near(Sum(1..Len(Q), LAMBDA k : Q[i][k] * Q[j][k]), IF i = j THEN s * s ELSE 0, t)
FitOk(e) ==
    LET al == Alpha(e.x, e.w) d == Det(al) ad == Adj(al) be == Beta(e.x, e.y, e.w) n == Len(e.x) ab == MulV(ad, be)
        wy == Sum(1..Len(e.w), LAMBDA m : e.w[m] * e.y[m] * e.y[m]) IN
    IF d = 0 THEN ZeroLine(al) => e.ok = 1 /\ e.good = 0
    ELSE /\ e.ok = 1 /\ e.good = 1 /\ Len(e.p) = n /\ \A i \in 1..n : Frac(e.p[i], 100 * ab[i], d)
         /\ FracM(e.cov, n, n, LAMBDA i, j : 400 * ad[i][j], d)
         /\ Len(e.err) = n /\ \A i \in 1..n : e.err[i] < 40000 /\ e.err[i] * e.err[i] < Big \div d /\ Abs(e.err[i] * e.err[i] * d - 40000 * ad[i][i]) <= (e.err[i] + 1) * d
         /\ e.chi # -1 => Frac(e.chi, 4 * (d * wy - Sum(1..n, LAMBDA i : be[i] * ab[i])), d)
\* fit of non-negative parameters, which improves on the starting point
NonNeg(e) ==
    LET be == Beta(e.x, e.y, e.w) n == Len(e.x) al == Alpha(e.x, e.w) IN
    /\ e.ok = 1 /\ Len(e.p) = n /\ \A i \in 1..n : e.p[i] >= 0 /\ e.p[i] < Big
    /\ Near(e.chi, 0, 100000000) /\ e.chi <= 4 * Chi2(e.x, e.y, e.w, [i \in 1..n |-> IF be[i] > 0 THEN 1 ELSE 0], 1) + 1
    /\ n = 1 => e.good = 1 /\ (IF be[1] > 0 THEN Frac(e.p[1], 100 * be[1], al[1][1]) ELSE e.p[1] = 0)
MpOk(e) ==
    LET n == Len(e.x) al == Alpha(e.x, e.w) tol == 1 + Sum(1..n, LAMBDA i : Sum(1..n, LAMBDA j : Abs(al[i][j])))
        near0 == \E i \in 1..n : e.rel[i] = 1 /\ e.p[i] = 0 IN
    /\ e.ok = 1 /\ e.good = 1 /\ Len(e.p) = n
    /\ \A i \in 1..n : IF e.frozen[i] = 1 THEN e.p[i] = 1000 * e.start[i]
                       ELSE /\ 1000 * e.lo[i] <= e.p[i] /\ e.p[i] <= 1000 * e.hi[i]
                            /\ Abs(e.p[i]) < 1000000
    \* (a relative derivative step is useless for a parameter that comes close to zero: left open)
    /\ \A i \in 1..n : (e.frozen[i] = 0 /\ e.lo[i] < e.hi[i] /\ ~near0) => Best(e.x, e.y, e.w, e.p, 1000, i, e.lo[i], e.hi[i], tol)
    /\ e.nocov = 1 => e.err = <<>>
    /\ (e.nocov = 0 /\ (\A i \in 1..n : e.frozen[i] = 0 /\ e.lo[i] < -90 /\ e.hi[i] > 90) /\ Det(al) # 0 /\ ~near0) =>
          LET d == Det(al) ad == Adj(al) IN \A i \in 1..n : e.err[i] < 40000 /\ e.err[i] * e.err[i] < Big \div d /\ Abs(e.err[i] * e.err[i] * d - 40000 * ad[i][i]) <= (2 * e.err[i] + 1) * d
Accept(e) ==
    IF e.op = "crash" THEN FALSE
    ELSE CASE e.op = "mul" -> IF Cols(e.a) # Len(e.b) THEN e.ok # 1 ELSE e.ok = 1 /\ e.r = Mul(e.a, e.b)
      [] e.op = "mulv" -> IF Cols(e.a) # Len(e.v) THEN e.ok # 1 ELSE e.ok = 1 /\ e.r = MulV(e.a, e.v)
      [] e.op = "vmul" -> IF Len(e.a) # Len(e.v) THEN e.ok # 1 ELSE e.ok = 1 /\ e.r = VMul(e.v, e.a)
      [] e.op = "trans" -> e.ok = 1 /\ e.r = Trans(e.a)
      [] e.op = "add" -> IF Len(e.a) # Len(e.b) \/ Cols(e.a) # Cols(e.b) THEN e.ok # 1 ELSE e.ok = 1 /\ e.r = Table(Len(e.a), Cols(e.a), LAMBDA i, j : e.a[i][j] + e.s * e.b[i][j])
      \* k * a + c, then divided by q (exact in quarters)
      [] e.op = "lin" -> e.ok = 1 /\ e.r = Table(Len(e.a), Cols(e.a), LAMBDA i, j : (4 * (e.k * e.a[i][j] + e.c)) \div e.q)
      [] e.op = "diag" -> IF ~Square(e) THEN e.ok # 1 ELSE e.ok = 1 /\ e.r = [i \in 1..Len(e.a) |-> e.a[i][i]]
      [] e.op = "setdiag" -> e.ok = 1 /\ e.r = Table(Len(e.a), Len(e.a), LAMBDA i, j : IF i = j THEN e.k ELSE e.a[i][j])
      [] e.op = "asdiag" -> e.ok = 1 /\ e.r = Table(Len(e.v), Len(e.v), LAMBDA i, j : IF i = j THEN e.v[i] ELSE 0)
      [] e.op = "ident" -> e.ok = 1 /\ e.r = Identity(e.n)
      [] e.op = "symz" -> IF ~Square(e) THEN e.ok # 1 ELSE e.ok = 1 /\ e.r = Table(Len(e.a), Len(e.a), LAMBDA i, j : IF j > i THEN e.a[j][i] ELSE e.a[i][j])
      \* a scaling, quarter rotation and translation applied to a point
      [] e.op = "affine" -> e.ok = 1 /\ LET p == <<e.s[1] * e.v[1], e.s[2] * e.v[2]>> q == Turn(e.q, p) IN e.r = <<q[1] + e.t[1], q[2] + e.t[2], 1>>
      [] e.op = "det" -> IF ~Square(e) THEN e.ok # 1 ELSE e.ok = 1 /\ Near(e.r, 1000 * Det(e.a), 1)
      [] e.op = "inv" -> IF ~Square(e) THEN e.ok # 1 ELSE
                         LET m == Must(e.f, e.a) IN e.ok = 1 /\ CASE m = 1 -> e.good = 1 /\ LET ad == Adj(e.a) IN FracM(e.r, Len(e.a), Len(e.a), LAMBDA i, j : 1000 * ad[i][j], Det(e.a))
                                                                 [] m = 0 -> e.good = 0 [] OTHER -> TRUE
      [] e.op = "solve" -> IF ~Square(e) \/ Len(e.v) # Len(e.a) THEN e.ok # 1 \/ (Square(e) /\ Det(e.a) = 0 /\ e.good = 0) ELSE
                         LET m == Must(e.f, e.a) IN e.ok = 1 /\ CASE m = 1 -> e.good = 1 /\ Len(e.r) = Len(e.v) /\ LET ab == MulV(Adj(e.a), e.v) IN \A i \in 1..Len(e.v) : Frac(e.r[i], 1000 * ab[i], Det(e.a))
                                                                 [] m = 0 -> e.good = 0 [] OTHER -> TRUE
      [] e.op = "chol" -> LET m == Must("chol", e.a) n == Len(e.a) IN e.ok = 1 /\ CASE m = 0 -> e.good = 0 [] m = 2 -> TRUE [] OTHER ->
                         /\ e.good = 1 /\ Shape(e.l, n, n) /\ Small(e.l) /\ Shape(e.li, n, n) /\ Small(e.li)
                         /\ \A i, j \in 1..n : j > i => e.l[i][j] = 0 /\ e.li[i][j] = 0
                         /\ \A i \in 1..n : e.l[i][i] > 0
                         /\ LET P == Mul(e.l, Trans(e.l)) IN \A i, j \in 1..n : Near(P[i][j], 1000000 * e.a[i][j], 5000 * n)
                         /\ LET P == Mul(e.l, e.li) IN \A i, j \in 1..n : Near(P[i][j], IF i = j THEN 1000000 ELSE 0, 8000 * n)
                         /\ Near(e.dt, 1000 * Det(e.a), 2) /\ Near(e.ldt, 1000 * Det(e.a), 2)
                         \* L f = v, trans(L) b = v
                         /\ LET P == MulV(e.l, e.fw) IN \A i \in 1..n : Near(P[i], 1000000 * e.v[i], 12000 * n)
                         /\ LET P == VMul(e.bw, e.l) IN \A i \in 1..n : Near(P[i], 1000000 * e.v[i], 12000 * n)
      [] e.op = "svd" -> LET n == Len(e.a) IN e.ok = 1 /\ e.good = 1 /\ Shape(e.u, n, n) /\ Shape(e.vt, n, n) /\ Len(e.s) = n
                         /\ Orth(e.u, 300, 700 * n) /\ Orth(e.vt, 300, 700 * n) /\ (\A i \in 1..n : e.s[i] >= 0 /\ e.s[i] < 30000) /\ (\A i \in 1..(n - 1) : e.s[i] >= e.s[i + 1])
                         /\ \A i, j \in 1..n : Near(Sum(1..n, LAMBDA k : ((e.u[i][k] * e.s[k]) \div 300) * e.vt[k][j]), 90000 * e.a[i][j], 6000 * n)
      [] e.op = "eigen" -> LET n == Len(e.a) IN e.ok = 1 /\ e.good = 1 /\ Shape(e.q, n, n) /\ Len(e.s) = n /\ Orth(e.q, 1000, 3000 * n)
                         /\ (\A i \in 1..(n - 1) : e.s[i] <= e.s[i + 1]) /\ (\A i \in 1..n : Abs(e.s[i]) < 100000)
                         /\ \A k, i \in 1..n : Near(1000 * Sum(1..n, LAMBDA j : e.a[i][j] * e.q[k][j]) - e.s[k] * e.q[k][i], 0, 20000 * n)
      [] e.op = "fit" -> FitOk(e)
      [] e.op = "baddim" -> e.ok # 1
      [] e.op = "fitnn" -> NonNeg(e)
      [] e.op = "mpfit" -> MpOk(e)
      [] e.op = "bfgs" -> e.ok = 1 /\ e.good = 1 /\ Len(e.r) = Len(e.c) /\ (\A i \in 1..Len(e.c) : Near(e.r[i], 1000 * e.c[i], 2)) /\ Near(e.val, 1000 * e.k, 1)
      [] e.op = "fft" -> e.ok = 1 /\ e.r = Fourier(e.d, e.v, e.dir)
      [] e.op = "rfft" -> e.ok = 1 /\ e.r = [i \in 1..Len(e.v) |-> e.d[1] * e.d[2] * e.v[i]]
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
