------------------------------- MODULE VecOps -------------------------------
(* Element-wise operators.  An operand is [s |-> 1, x |-> scalar] or        *)
(* [s |-> 0, d |-> dims, v |-> data].  Booleans are 0/1.                     *)
EXTENDS VecBase
B(p) == IF p THEN 1 ELSE 0
\* C++ integer division and remainder truncate toward zero
TDiv(a, b) == IF (a >= 0) = (b > 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
TMod(a, b) == a - b * TDiv(a, b)
Bin(o, a, b) == CASE o = "+" -> a + b  [] o = "-" -> a - b  [] o = "*" -> a * b
                  [] o = "/" -> TDiv(a, b) [] o = "%" -> TMod(a, b)
                  [] o = "==" -> B(a = b) [] o = "!=" -> B(a # b)
                  [] o = "<" -> B(a < b)  [] o = "<=" -> B(a <= b)
                  [] o = ">" -> B(a > b)  [] o = ">=" -> B(a >= b)
                  [] o = "&&" -> B(a = 1 /\ b = 1) [] o = "||" -> B(a = 1 \/ b = 1)
                  [] o = "f" -> 3 * a + b      \* the user function handed to the vectorising helpers
Un(o, a) == CASE o = "-" -> -a [] o = "+" -> a [] o = "!" -> 1 - a
Dims(x, y) == IF x.s = 1 THEN y.d ELSE x.d
Compatible(x, y) == x.s = 1 \/ y.s = 1 \/ x.d = y.d
At(x, i) == IF x.s = 1 THEN x.x ELSE x.v[i]
\* numbers that are not whole: operands in quarters, results in sixteenths (truth values apart)
Frac(o, a, b) == CASE o \in {"+", "-"} -> 4 * Bin(o, a, b) [] o = "*" -> a * b [] o = "/" -> TDiv(16 * a, b) [] OTHER -> Bin(o, a, b)
\* stored in place of a whole number, results are truncated
InPlace(o, int, a, b) == IF int = 1 THEN 16 * TDiv(Frac(o, a, b), 16) ELSE Frac(o, a, b)
Elem2(F(_, _), x, y) == [i \in 1..Prod(Dims(x, y)) |-> F(At(x, i), At(y, i))]
Apply(o, x, y) == [d |-> Dims(x, y), v |-> [i \in 1..Prod(Dims(x, y)) |-> Bin(o, At(x, i), At(y, i))]]
=============================================================================
