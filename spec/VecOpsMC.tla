------------------------------ MODULE VecOpsMC ------------------------------
EXTENDS VecOps
CONSTANT M
VARIABLES a, b, c
Vals == -M..M
Init == a \in Vals /\ b \in Vals /\ c \in Vals
Spec == Init /\ [][UNCHANGED <<a, b, c>>]_<<a, b, c>>
V(x, y) == [s |-> 0, d |-> <<2>>, v |-> <<x, y>>]
S(x) == [s |-> 1, x |-> x]
\* a scalar operand behaves as a vector of equal elements, on either side
ScalarIsConstant == \A o \in {"+", "-", "*", "==", "!=", "<", "<=", ">", ">=", "f"} :
    /\ Apply(o, V(a, b), S(c)) = Apply(o, V(a, b), V(c, c))
    /\ Apply(o, S(c), V(a, b)) = Apply(o, V(c, c), V(a, b))
DivMod == (b # 0) => Bin("+", Bin("*", Bin("/", a, b), b), Bin("%", a, b)) = a /\ Abs(Bin("%", a, b)) < Abs(b)
Trichotomy == Bin("<", a, b) + Bin("==", a, b) + Bin(">", a, b) = 1
Negation == Bin("!=", a, b) = 1 - Bin("==", a, b) /\ Bin("<=", a, b) = 1 - Bin(">", a, b)
=============================================================================
