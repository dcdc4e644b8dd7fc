----------------------------- MODULE LinAlgMC -----------------------------
(* Laws of the definitions in LinAlg, for all small matrices and fits.      *)
EXTENDS LinAlg
CONSTANTS V, N
VARIABLES A, B, y
Mat(n) == [1..n -> [1..n -> -V..V]]
Init == A \in Mat(N) /\ B \in {M \in Mat(N) : \A i, j \in 1..N : i = j \/ M[i][j] >= 0} /\ y \in [1..N -> -V..V]
Next == UNCHANGED <<A, B, y>>
Spec == Init /\ [][Next]_<<A, B, y>>
Inverses == Mul(A, Adj(A)) = Scaled(Identity(N), Det(A)) /\ Mul(Adj(A), A) = Scaled(Identity(N), Det(A))
Product == Det(Mul(A, B)) = Det(A) * Det(B) /\ Det(Trans(A)) = Det(A) /\ Trans(Mul(A, B)) = Mul(Trans(B), Trans(A))
Cramer == MulV(A, MulV(Adj(A), y)) = [i \in 1..N |-> Det(A) * y[i]] /\ VMul(y, A) = MulV(Trans(A), y)
Zero == ZeroLine(A) => Det(A) = 0
\* A * trans(A) is positive definite unless A is singular
Positive == Det(A) # 0 => PosDef(Mul(A, Trans(A)))
W == [m \in 1..N |-> IF m = 1 THEN 4 ELSE 1]
\* the solution of the normal equations is the best: no slope, and no integer parameters give less
LeastSquares == LET al == Alpha(A, W) d == Det(al) p == MulV(Adj(al), Beta(A, y, W)) IN
    d # 0 => /\ \A i \in 1..N : Slope(A, y, W, p, d, i) = 0
             /\ \A q \in [1..N -> -1..1] : Chi2(A, y, W, p, d) <= d * d * Chi2(A, y, W, q, 1)
\* the slope conditions identify the best value within limits
Limits == \A lo \in -V..0, hi \in 0..V : \A p \in [1..N -> lo..hi] :
    (\A i \in 1..N : Best(A, y, W, [k \in 1..N |-> 2 * p[k]], 2, i, lo, hi, 0)) =>
        \A q \in [1..N -> lo..hi] : Chi2(A, y, W, p, 1) <= Chi2(A, y, W, q, 1)
\* transforming back and forth multiplies by the number of pixels
Flat == [k \in 1..4 |-> <<A[((k - 1) \div 2) + 1][((k - 1) % 2) + 1], y[((k - 1) % 2) + 1]>>]
Round == \A d \in {<<1, 4>>, <<2, 2>>, <<4, 1>>} : Fourier(d, Fourier(d, Flat, 1), -1) = [k \in 1..4 |-> <<4 * Flat[k][1], 4 * Flat[k][2]>>]
=============================================================================
