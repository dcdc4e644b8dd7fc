------------------------------ MODULE VecAssign ------------------------------
(* Assignments between vectors and views.  One vector "root" is stored; a  *)
(* view is a sequence of positions of it.  An assignment  L op R  happens   *)
(* as if R were first copied to a temporary, whatever L and R share.        *)
(*   L: [k |-> "vec"] | [k |-> "view", d, p]                                 *)
(*   R: [k |-> "vec"] | [k |-> "view", d, p] | [k |-> "val", d, v]            *)
(*      | [k |-> "s", x] (independent scalar) | [k |-> "e", p] (element of root) *)
EXTENDS VecBase

Op(o, a, b) == CASE o = "=" -> b
                 [] o = "+=" -> a + b
                 [] o = "-=" -> a - b
                 [] o = "*=" -> a * b
                 [] o = "/=" -> a \div b      \* operands are positive
                 [] o = "%=" -> a % b

IsScalar(R) == R.k \in {"s", "e"}
LPos(root, L) == IF L.k = "vec" THEN Iota(Len(root.v)) ELSE L.p
LDims(root, L) == IF L.k = "vec" THEN root.d ELSE L.d
RDims(root, R) == IF R.k = "vec" THEN root.d ELSE R.d
\* the temporary: values of the right-hand side, all read before anything is written
RVal(root, R) == CASE R.k = "vec" -> root.v
                   [] R.k = "view" -> [i \in 1..Len(R.p) |-> root.v[R.p[i] + 1]]
                   [] R.k = "val" -> R.v
SVal(root, R) == IF R.k = "s" THEN R.x ELSE root.v[R.p + 1]

\* writes happen element after element (a position listed twice is written twice)
Write(v, P, T, o) == FoldLeft(LAMBDA acc, i : [acc EXCEPT ![P[i] + 1] = Op(o, @, T[i])], v, Iota1(Len(P)))

\* shapes must agree; only replacing a whole vector may change its shape, and
\* assigning to a view only requires the number of elements to agree
Allowed(root, o, L, R) ==
    IF IsScalar(R) THEN TRUE
    ELSE IF o = "=" THEN (IF L.k = "vec" THEN TRUE ELSE Len(L.p) = Len(RVal(root, R)))
    ELSE LDims(root, L) = RDims(root, R)

Assign(root, o, L, R) ==
    IF o = "=" /\ L.k = "vec" /\ ~IsScalar(R) THEN [d |-> RDims(root, R), v |-> RVal(root, R)]
    ELSE LET P == LPos(root, L)
             T == IF IsScalar(R) THEN Repeat(SVal(root, R), Len(P)) ELSE RVal(root, R)
         IN [d |-> root.d, v |-> Write(root.v, P, T, o)]
=============================================================================
