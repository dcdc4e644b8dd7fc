------------------------------- MODULE HullMC -------------------------------
(* The monotone chain over all small sets of points ends with their hull.   *)
EXTENDS Hull, SequencesExt
CONSTANTS W, N
VARIABLES P, ids, stack, todo, low
vars == <<P, ids, stack, todo, low>>
Grid == (0..W) \X (0..W)
Sorted(S) == SetToSortSeq(S, Before)
Init == \E S \in SUBSET Grid : /\ Cardinality(S) \in 1..N /\ P = S /\ ids = Sorted(S) /\ stack = <<>> /\ todo = Sorted(S) /\ low = 0
Keep == low + 2
\* drop points that do not turn left, or push the next one
Pop == /\ todo # <<>> /\ Len(stack) >= (IF low = 0 THEN 2 ELSE low + 1) /\ Cross(stack[Len(stack) - 1], stack[Len(stack)], todo[1]) <= 0
       /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<P, ids, todo, low>>
Push == /\ todo # <<>> /\ ~(Len(stack) >= (IF low = 0 THEN 2 ELSE low + 1) /\ Cross(stack[Len(stack) - 1], stack[Len(stack)], todo[1]) <= 0)
        /\ stack' = Append(stack, todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED <<P, ids, low>>
Turn == /\ todo = <<>> /\ low = 0 /\ Len(ids) > 1 /\ low' = Len(stack) /\ todo' = Tail(Reverse(ids)) /\ UNCHANGED <<P, ids, stack>>
Done == todo = <<>> /\ (low > 0 \/ Len(ids) = 1)
Stop == Done /\ UNCHANGED vars
MNext == Pop \/ Push \/ Turn \/ Stop
Spec == Init /\ [][MNext]_vars
IsTheHull == Done => IsHull(P, stack)
\* a point is in the hull if and only if it is in a triangle of the points
Tri(a, b, c, p) == LET x == Cross(a, b, p) y == Cross(b, c, p) z == Cross(c, a, p) IN (x >= 0 /\ y >= 0 /\ z >= 0) \/ (x <= 0 /\ y <= 0 /\ z <= 0)
Members == (Done /\ ~Aligned(P)) => \A p \in Grid : In(stack, p) <=> \E a, b, c \in P : Cross(a, b, c) # 0 /\ Tri(a, b, c, p)
Reversed == (Done /\ ~Aligned(P)) => /\ Area2(stack) > 0 /\ Area2(Reverse(stack)) = -Area2(stack) /\ \A p \in Grid : In(stack, p) <=> In(Reverse(stack), p)
Less(f, g) == f[1] * g[2] <= g[1] * f[2]
Distances == (Done /\ ~Aligned(P)) => \A p \in Grid : \A i \in 1..(Len(stack) - 1) :
    LET d == Seg2(stack[i], stack[i + 1], p) IN d[2] > 0 /\ Less(d, <<Len2(stack[i], p), 1>>) /\ Less(d, <<Len2(stack[i + 1], p), 1>>)
                                             /\ (d[1] = 0 => In(stack, p))
=============================================================================
