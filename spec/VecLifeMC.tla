----------------------------- MODULE VecLifeMC -----------------------------
EXTENDS VecLife
CONSTANTS D, MaxN, Steps
VARIABLES regs, n, total
Shapes == [1..D -> 0..MaxN]
Init == regs = [i \in {1, 2} |-> Empty(D)] /\ n = 0 /\ total = 0
Rows == {r \in [1..(D - 1) -> 1..MaxN] : TRUE}
Next == /\ n < Steps /\ n' = n + 1
        /\ \E a, b \in {1, 2} :
          \/ \E d \in Shapes : regs' = [regs EXCEPT ![a] = Zeros(d)] /\ UNCHANGED total
          \/ regs' = [regs EXCEPT ![a] = regs[b]] /\ UNCHANGED total
          \/ a # b /\ regs' = [regs EXCEPT ![a] = regs[b], ![b] = Empty(D)] /\ UNCHANGED total
          \/ regs' = [regs EXCEPT ![a] = Empty(D)] /\ UNCHANGED total
          \/ D = 1 /\ Len(regs[a].v) < 4 /\ regs' = [regs EXCEPT ![a] = PushScalar(@, total)] /\ total' = total + 1
          \/ D > 1 /\ \E r \in Rows : LET row == [d |-> r, v |-> Repeat(total, Prod(r))] IN
                PushOk(regs[a], row) /\ regs' = [regs EXCEPT ![a] = PushRow(@, row)] /\ total' = total + 1
          \/ \E d \in Shapes : \E x \in {Zeros(d), [d |-> d, v |-> [i \in 1..Prod(d) |-> IF i <= Len(regs[a].v) THEN regs[a].v[i] ELSE 0]]} :
                ResizeOk(regs[a], d, x) /\ regs' = [regs EXCEPT ![a] = x] /\ UNCHANGED total
Spec == Init /\ [][Next]_<<regs, n, total>>
ShapeInvariant == \A a \in {1, 2} : WellShaped(regs[a]) /\ Len(regs[a].d) = D
=============================================================================
