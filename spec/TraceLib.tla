------------------------------ MODULE TraceLib ------------------------------
(* Common part of the trace-validation modules: the recorded calls are the *)
(* lines of the ndjson file named by the TRACE environment variable.       *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLE pos   \* number of lines consumed

Trace == ndJsonDeserialize(IOEnv.TRACE)
NLines == Len(Trace)
Chunk == 100
Has(e, f) == f \in DOMAIN e
Reject(k) == PrintT(<<"REJECT", k>>)
Done(n) == PrintT(<<"DONE", n>>)

\* Validation of independent calls: every line must satisfy Accept
StatelessNext(Accept(_)) ==
    /\ pos < NLines
    /\ LET hi == IF pos + Chunk < NLines THEN pos + Chunk ELSE NLines
       IN /\ \A k \in (pos + 1)..hi : IF Accept(Trace[k]) THEN TRUE ELSE Reject(k)
          /\ pos' = hi
          /\ IF hi = NLines THEN Done(hi) ELSE TRUE
Stateless(Accept(_)) == pos = 0 /\ [][StatelessNext(Accept)]_pos

=============================================================================
