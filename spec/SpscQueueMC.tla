---------------------------- MODULE SpscQueueMC ----------------------------
(* The queue as it is built: a linked list with a dummy node.  The producer *)
(* owns `first`, publishes `last`; the consumer publishes `dummy`.  Every    *)
(* access to a shared atomic is one step.  Checked: refinement of Fifo,      *)
(* no access to a freed node, nothing leaked, pop fails only on empty.       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NPush, NPop
Nodes == 0..NPush
VARIABLES next, alive, first, dummy, last, ppc, cpc, pushed, pops, got, tmp, ctmp, clast, fail, baduse
vars == <<next, alive, first, dummy, last, ppc, cpc, pushed, pops, got, tmp, ctmp, clast, fail, baduse>>
Nil == NPush + 1
Init == /\ next = [n \in Nodes |-> Nil] /\ alive = {0} /\ first = 0 /\ dummy = 0 /\ last = 0
        /\ ppc = "idle" /\ cpc = "idle" /\ pushed = 0 /\ pops = 0 /\ got = <<>> /\ tmp = Nil /\ ctmp = Nil /\ clast = Nil
        /\ fail = {} /\ baduse = FALSE
Use(S) == baduse' = (baduse \/ ~(S \subseteq alive))
\* producer
PStart == /\ ppc = "idle" /\ pushed < NPush /\ tmp' = pushed + 1 /\ alive' = alive \cup {pushed + 1} /\ ppc' = "link"
          /\ UNCHANGED <<next, first, dummy, last, cpc, pushed, pops, got, ctmp, clast, fail, baduse>>
PLink == /\ ppc = "link" /\ Use({last}) /\ next' = [next EXCEPT ![last] = tmp] /\ ppc' = "publish"
         /\ UNCHANGED <<alive, first, dummy, last, cpc, pushed, pops, got, tmp, ctmp, clast, fail>>
PPublish == /\ ppc = "publish" /\ Use({last}) /\ last' = next[last] /\ pushed' = pushed + 1 /\ ppc' = "free"
            /\ UNCHANGED <<next, alive, first, dummy, cpc, pops, got, tmp, ctmp, clast, fail>>
PFree == /\ ppc = "free"
         /\ IF first # dummy THEN /\ Use({first}) /\ first' = next[first] /\ alive' = alive \ {first} /\ ppc' = ppc
                             ELSE /\ ppc' = "idle" /\ UNCHANGED <<first, alive, baduse>>
         /\ UNCHANGED <<next, dummy, last, cpc, pushed, pops, got, tmp, ctmp, clast, fail>>
\* consumer
CStart == /\ cpc = "idle" /\ pops < NPop /\ ctmp' = dummy /\ cpc' = "cmp"
          /\ UNCHANGED <<next, alive, first, dummy, last, ppc, pushed, pops, got, tmp, clast, fail, baduse>>
CCmp == /\ cpc = "cmp"
        /\ IF ctmp # last THEN cpc' = "take" /\ UNCHANGED <<pops, fail>>
                          ELSE cpc' = "idle" /\ pops' = pops + 1 /\ fail' = fail \cup {<<Len(got), pushed>>}
        /\ UNCHANGED <<next, alive, first, dummy, last, ppc, pushed, got, tmp, ctmp, clast, baduse>>
CTake == /\ cpc = "take" /\ Use({dummy} \cup {next[dummy]}) /\ got' = Append(got, next[dummy]) /\ cpc' = "advance"
         /\ UNCHANGED <<next, alive, first, dummy, last, ppc, pushed, pops, tmp, ctmp, clast, fail>>
CAdvance == /\ cpc = "advance" /\ Use({dummy}) /\ dummy' = next[dummy] /\ cpc' = "idle" /\ pops' = pops + 1
            /\ UNCHANGED <<next, alive, first, last, ppc, pushed, got, tmp, ctmp, clast, fail>>
Next == PStart \/ PLink \/ PPublish \/ PFree \/ CStart \/ CCmp \/ CTake \/ CAdvance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ok == ~baduse
\* a failed pop happened at a moment when the queue was empty
FailOnlyEmpty == \A f \in fail : f[1] = f[2]
InOrder == got = [i \in 1..Len(got) |-> i]
\* what the destructor frees (from first to the end of the list) is everything alive
RECURSIVE Chain(_)
Chain(n) == IF n = Nil THEN {} ELSE {n} \cup Chain(next[n])
NoLeak == (ppc = "idle" /\ cpc = "idle") => Chain(first) = alive
Abs == INSTANCE Fifo WITH q <- [i \in 1..(pushed - Len(got)) |-> Len(got) + i], sent <- pushed, got <- got
Refines == Abs!FSpec
=============================================================================
