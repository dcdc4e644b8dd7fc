------------------------------ MODULE WorkerMC ------------------------------
(* worker: the owner pushes jobs and waits; a thread, started at the first   *)
(* push, consumes until told to stop and nothing is left.                    *)
EXTENDS Naturals, Sequences
CONSTANTS NJobs, NWaits
VARIABLES jobs, pushed, done, running, th, stop, opc, waits, cpc
vars == <<jobs, pushed, done, running, th, stop, opc, waits, cpc>>
Init == jobs = <<>> /\ pushed = 0 /\ done = <<>> /\ running = 0 /\ th = "none" /\ stop = FALSE /\ opc = "idle" /\ waits = 0 /\ cpc = "check1"
Push == /\ opc = "idle" /\ pushed < NJobs /\ pushed' = pushed + 1 /\ jobs' = Append(jobs, pushed + 1)
        /\ IF th = "none" THEN th' = "run" /\ cpc' = "check1" ELSE UNCHANGED <<th, cpc>>
        /\ UNCHANGED <<done, running, stop, opc, waits>>
Wait == /\ opc = "idle" /\ waits < NWaits /\ waits' = waits + 1
        /\ IF th = "none" THEN UNCHANGED <<stop, opc>> ELSE stop' = TRUE /\ opc' = "join"
        /\ UNCHANGED <<jobs, pushed, done, running, th, cpc>>
Joined == opc = "join" /\ th = "ended" /\ th' = "none" /\ stop' = FALSE /\ opc' = "idle" /\ UNCHANGED <<jobs, pushed, done, running, waits, cpc>>
Check1 == th = "run" /\ cpc = "check1" /\ cpc' = (IF stop THEN "check2" ELSE "pop") /\ UNCHANGED <<jobs, pushed, done, running, th, stop, opc, waits>>
Check2 == th = "run" /\ cpc = "check2" /\ (IF jobs = <<>> THEN th' = "ended" /\ UNCHANGED cpc ELSE cpc' = "pop" /\ UNCHANGED th)
          /\ UNCHANGED <<jobs, pushed, done, running, stop, opc, waits>>
Pop == th = "run" /\ cpc = "pop" /\ (IF jobs = <<>> THEN cpc' = "check1" /\ UNCHANGED <<jobs, running>>
                                     ELSE running' = Head(jobs) /\ jobs' = Tail(jobs) /\ cpc' = "job")
       /\ UNCHANGED <<pushed, done, th, stop, opc, waits>>
Job == th = "run" /\ cpc = "job" /\ done' = Append(done, running) /\ running' = 0 /\ cpc' = "pop" /\ UNCHANGED <<jobs, pushed, th, stop, opc, waits>>
Thread == Check1 \/ Check2 \/ Pop \/ Job
Next == Push \/ Wait \/ Joined \/ Thread
Spec == Init /\ [][Next]_vars /\ WF_vars(Thread) /\ WF_vars(Joined)
InOrder == done = [i \in 1..Len(done) |-> i]
AllDoneAfterWait == (opc = "idle" /\ th = "none") => (Len(done) = pushed /\ running = 0)
WaitEnds == (opc = "join") ~> (opc = "idle")
=============================================================================
