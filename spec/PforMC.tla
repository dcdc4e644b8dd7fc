------------------------------- MODULE PforMC -------------------------------
(* parallel loop over [A, A + N): workers fetch chunks [i0, i1) under a lock *)
(* and execute their indices one by one.                                     *)
EXTENDS Naturals, FiniteSets
CONSTANTS MaxA, MaxN, MaxW, MaxChunk
VARIABLES a, n, w, ch, i0, i1, di, lo, hi, calls, pc
vars == <<a, n, w, ch, i0, i1, di, lo, hi, calls, pc>>
Wk == 1..MaxW
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
NChunk == IF ch = 0 THEN w ELSE Max(w, n \div ch)
Init == /\ a \in 0..MaxA /\ n \in 0..MaxN /\ w \in 1..MaxW /\ ch \in 0..MaxChunk
        /\ i0 = a /\ di = n \div NChunk + 1 /\ i1 = Min(a + di, a + n)
        /\ lo = [k \in Wk |-> 0] /\ hi = [k \in Wk |-> 0] /\ calls = [i \in 0..(MaxA + MaxN + 2) |-> 0]
        /\ pc = [k \in Wk |-> IF k <= w THEN "query" ELSE "end"]
Query(k) == /\ pc[k] = "query"
            /\ IF i0 = a + n THEN pc' = [pc EXCEPT ![k] = "end"] /\ UNCHANGED <<i0, i1, lo, hi>>
               ELSE /\ lo' = [lo EXCEPT ![k] = i0] /\ hi' = [hi EXCEPT ![k] = i1] /\ i0' = i1 /\ i1' = Min(i1 + di, a + n)
                    /\ pc' = [pc EXCEPT ![k] = "loop"]
            /\ UNCHANGED <<a, n, w, ch, di, calls>>
Loop(k) == /\ pc[k] = "loop"
           /\ IF lo[k] = hi[k] THEN pc' = [pc EXCEPT ![k] = "query"] /\ UNCHANGED <<calls, lo>>
              ELSE calls' = [calls EXCEPT ![lo[k]] = @ + 1] /\ lo' = [lo EXCEPT ![k] = @ + 1] /\ UNCHANGED pc
           /\ UNCHANGED <<a, n, w, ch, di, i0, i1, hi>>
Next == \E k \in Wk : Query(k) \/ Loop(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtMostOnce == \A i \in DOMAIN calls : calls[i] <= (IF i \in a..(a + n - 1) THEN 1 ELSE 0)
Over == \A k \in Wk : pc[k] = "end"
ExactlyOnce == Over => \A i \in a..(a + n - 1) : calls[i] = 1
Ends == <>Over
=============================================================================
