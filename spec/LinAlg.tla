------------------------------- MODULE LinAlg -------------------------------
(* Matrices of integers (sequences of rows), their determinants and          *)
(* adjugates (so that inverses and solutions of linear systems are exact     *)
(* fractions), weighted linear least squares with and without limits on the  *)
(* parameters, and the discrete Fourier transform on sizes that divide 4.    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
Sum(S, f(_)) == MapThenSumSet(f, S)
Table(n, m, f(_, _)) == [i \in 1..n |-> [j \in 1..m |-> f(i, j)]]
Cols(A) == Len(A[1])
Mul(A, B) == Table(Len(A), Cols(B), LAMBDA i, j : Sum(1..Len(B), LAMBDA k : A[i][k] * B[k][j]))
MulV(A, v) == [i \in 1..Len(A) |-> Sum(1..Len(v), LAMBDA k : A[i][k] * v[k])]
VMul(v, A) == [j \in 1..Cols(A) |-> Sum(1..Len(v), LAMBDA k : v[k] * A[k][j])]
Trans(A) == Table(Cols(A), Len(A), LAMBDA i, j : A[j][i])
Identity(n) == Table(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Scaled(A, k) == Table(Len(A), Cols(A), LAMBDA i, j : k * A[i][j])
Symmetric(A) == Len(A) = Cols(A) /\ \A i, j \in 1..Len(A) : A[i][j] = A[j][i]
\* without row r and column c
Skip(k, r) == IF k < r THEN k ELSE k + 1
Minor(A, r, c) == Table(Len(A) - 1, Len(A) - 1, LAMBDA i, j : A[Skip(i, r)][Skip(j, c)])
Lead(A, n) == Table(n, n, LAMBDA i, j : A[i][j])
Sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1
RECURSIVE Det(_)
Det(A) == IF Len(A) = 1 THEN A[1][1]
          ELSE Sum({j \in 1..Len(A) : A[1][j] # 0}, LAMBDA j : Sgn(1 + j) * A[1][j] * Det(Minor(A, 1, j)))
Adj(A) == IF Len(A) = 1 THEN <<<<1>>>> ELSE Table(Len(A), Len(A), LAMBDA i, j : Sgn(i + j) * Det(Minor(A, j, i)))
LeadMinors(A) == {Det(Lead(A, n)) : n \in 1..Len(A)}
PosDef(A) == \A d \in LeadMinors(A) : d > 0
\* a whole row or column of zeros: singular whatever the rounding
ZeroLine(A) == \E i \in 1..Len(A) : (\A j \in 1..Len(A) : A[i][j] = 0) \/ (\A j \in 1..Len(A) : A[j][i] = 0)

\* ---- y = sum over i of p[i] * x[i], with the weights w --------------------
Alpha(X, w) == Table(Len(X), Len(X), LAMBDA i, j : Sum(1..Len(w), LAMBDA m : w[m] * X[i][m] * X[j][m]))
Beta(X, y, w) == [i \in 1..Len(X) |-> Sum(1..Len(w), LAMBDA m : w[m] * X[i][m] * y[m])]
\* weighted sum of squares of the residuals, for parameters p / s, times s * s
Chi2(X, y, w, p, s) == Sum(1..Len(w), LAMBDA m : LET d == s * y[m] - Sum(1..Len(X), LAMBDA i : p[i] * X[i][m]) IN w[m] * d * d)
\* half of minus the derivative of Chi2 / s
Slope(X, y, w, p, s, i) == Sum(1..Len(w), LAMBDA m : w[m] * X[i][m] * (s * y[m] - Sum(1..Len(X), LAMBDA k : p[k] * X[k][m])))
\* p / s is the best value of parameter i in the interval [lo, hi] (Karush-Kuhn-Tucker), up to tol
Best(X, y, w, p, s, i, lo, hi, tol) == LET g == Slope(X, y, w, p, s, i) IN
    /\ (p[i] > s * lo + 1) => g >= -tol     \* not at the lower limit: decreasing does not help
    /\ (p[i] < s * hi - 1) => g <= tol      \* not at the upper limit: increasing does not help

\* ---- discrete Fourier transform, sizes 1, 2, 4: factors are powers of i ---
Turn(k, c) == CASE k % 4 = 0 -> c [] k % 4 = 1 -> <<-c[2], c[1]>> [] k % 4 = 2 -> <<-c[1], -c[2]>> [] OTHER -> <<c[2], -c[1]>>
Fourier(d, v, dir) == [q \in 1..(d[1] * d[2]) |->
    LET u == (q - 1) \div d[2] z == (q - 1) % d[2]
        t == [p \in 1..(d[1] * d[2]) |-> Turn(dir * ((4 \div d[1]) * u * ((p - 1) \div d[2]) + (4 \div d[2]) * z * ((p - 1) % d[2])), v[p])]
    IN <<Sum(DOMAIN t, LAMBDA p : t[p][1]), Sum(DOMAIN t, LAMBDA p : t[p][2])>>]
=============================================================================
