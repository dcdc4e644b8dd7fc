------------------------------- MODULE PoolMC -------------------------------
(* worker pool: items are given to per-worker queues; consume_all polls the  *)
(* queues; join raises the shutdown flags and waits for the threads.         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, NItems
Wk == 1..N
VARIABLES q, given, asg, run, done, flag, wpc, mpc, k, consumed
vars == <<q, given, asg, run, done, flag, wpc, mpc, k, consumed>>
Init == q = [w \in Wk |-> <<>>] /\ given = 0 /\ asg = [w \in Wk |-> <<>>] /\ run = [w \in Wk |-> 0] /\ done = [w \in Wk |-> <<>>]
        /\ flag = [w \in Wk |-> FALSE] /\ wpc = [w \in Wk |-> "outer"] /\ mpc = "use" /\ k = 1 /\ consumed = FALSE
Give(w) == /\ mpc = "use" /\ given < NItems /\ given' = given + 1 /\ q' = [q EXCEPT ![w] = Append(@, given + 1)]
           /\ asg' = [asg EXCEPT ![w] = Append(@, given + 1)] /\ consumed' = FALSE /\ UNCHANGED <<run, done, flag, wpc, mpc, k>>
Poll == mpc = "use" /\ mpc' = "poll" /\ k' = 1 /\ UNCHANGED <<q, given, asg, run, done, flag, wpc, consumed>>
PollOne == /\ mpc = "poll"
           /\ IF Len(q[k]) > 0 THEN k' = 1 /\ UNCHANGED <<mpc, consumed>>
              ELSE IF k = N THEN mpc' = "use" /\ consumed' = TRUE /\ UNCHANGED k ELSE k' = k + 1 /\ UNCHANGED <<mpc, consumed>>
           /\ UNCHANGED <<q, given, asg, run, done, flag, wpc>>
Join == mpc = "use" /\ mpc' = "flags" /\ k' = 1 /\ UNCHANGED <<q, given, asg, run, done, flag, wpc, consumed>>
Flags == mpc = "flags" /\ flag' = [flag EXCEPT ![k] = TRUE] /\ (IF k = N THEN mpc' = "joining" /\ k' = 1 ELSE k' = k + 1 /\ UNCHANGED mpc)
         /\ UNCHANGED <<q, given, asg, run, done, wpc, consumed>>
Joining == mpc = "joining" /\ wpc[k] = "ended" /\ (IF k = N THEN mpc' = "joined" /\ UNCHANGED k ELSE k' = k + 1 /\ UNCHANGED mpc)
           /\ UNCHANGED <<q, given, asg, run, done, flag, wpc, consumed>>
Outer(w) == wpc[w] = "outer" /\ wpc' = [wpc EXCEPT ![w] = IF flag[w] THEN "ended" ELSE "pop"] /\ UNCHANGED <<q, given, asg, run, done, flag, mpc, k, consumed>>
Pop(w) == /\ wpc[w] = "pop"
          /\ IF q[w] = <<>> THEN wpc' = [wpc EXCEPT ![w] = "outer"] /\ UNCHANGED <<q, run>>
             ELSE run' = [run EXCEPT ![w] = Head(q[w])] /\ q' = [q EXCEPT ![w] = Tail(@)] /\ wpc' = [wpc EXCEPT ![w] = "job"]
          /\ UNCHANGED <<given, asg, done, flag, mpc, k, consumed>>
Job(w) == wpc[w] = "job" /\ done' = [done EXCEPT ![w] = Append(@, run[w])] /\ run' = [run EXCEPT ![w] = 0] /\ wpc' = [wpc EXCEPT ![w] = "pop"]
          /\ UNCHANGED <<q, given, asg, flag, mpc, k, consumed>>
Worker(w) == Outer(w) \/ Pop(w) \/ Job(w)
Next == Poll \/ PollOne \/ Join \/ Flags \/ Joining \/ \E w \in Wk : Give(w) \/ Worker(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(PollOne) /\ WF_vars(Flags) /\ WF_vars(Joining) /\ \A w \in Wk : WF_vars(Worker(w))
OnceInOrder == \A w \in Wk : done[w] = SubSeq(asg[w], 1, Len(done[w]))
AllProcessed == (mpc = "joined" /\ consumed) => \A w \in Wk : done[w] = asg[w]
NothingRunning == mpc = "joined" => \A w \in Wk : run[w] = 0
PollEnds == (mpc = "poll") ~> (mpc = "use")
JoinEnds == (mpc = "flags") ~> (mpc = "joined")
=============================================================================
