-------------------------------- MODULE Fifo --------------------------------
(* Abstract single-producer single-consumer queue.                          *)
EXTENDS Naturals, Sequences
VARIABLES q, sent, got
FInit == q = <<>> /\ sent = 0 /\ got = <<>>
FPush == sent' = sent + 1 /\ q' = Append(q, sent + 1) /\ UNCHANGED got
FPop == q # <<>> /\ got' = Append(got, Head(q)) /\ q' = Tail(q) /\ UNCHANGED sent
FNext == FPush \/ FPop
FSpec == FInit /\ [][FNext]_<<q, sent, got>>
=============================================================================
