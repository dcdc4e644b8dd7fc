---------------------------- MODULE VecLifeTrace ----------------------------
(* Replays recorded histories: "begin" resets the two slots, every other    *)
(* line is one operation together with the complete observed state.         *)
EXTENDS VecLife, TraceLib
VARIABLES regs, bad
Obs(e) == [i \in 1..Len(e.st) |-> [d |-> e.st[i].d, v |-> e.st[i].v]]
\* size(), empty(), front() and back() agree with the content
Views(e) == \A i \in 1..Len(e.st) :
    LET s == e.st[i] IN /\ s.n = Len(s.v) /\ s.n = Prod(s.d) /\ s.e = (IF s.v = <<>> THEN 1 ELSE 0)
                        /\ (Len(s.d) = 1 /\ s.v # <<>>) => (s.f = s.v[1] /\ s.b = s.v[Len(s.v)])
Same(old, new, S) == \A k \in 1..Len(old) : k \in S \/ new[k] = old[k]
Src(e) == [d |-> e.rd, v |-> e.r]
Step(old, e, new) ==
    LET a == e.a b == IF Has(e, "b") THEN e.b ELSE e.a D == Len(old[a].d) IN
    CASE e.f = "list"   -> Same(old, new, {a}) /\ new[a] = Src(e)             \* x = {...}
      [] e.f = "zeros"  -> Same(old, new, {a}) /\ new[a] = Zeros(e.rd)        \* x = vec(d...)
      [] e.f = "default"-> Same(old, new, {a}) /\ new[a] = Empty(D)
      [] e.f = "copy"   -> Same(old, new, {a}) /\ new[a] = old[b]             \* x = y, or x constructed from y
      [] e.f = "move"   -> IF a = b THEN Same(old, new, {}) \/ new[a] = Empty(D)
                           ELSE Same(old, new, {a, b}) /\ new[a] = old[b] /\ new[b] = Empty(D)
      [] e.f = "swap"   -> Same(old, new, {a, b}) /\ new[a] = old[b] /\ new[b] = old[a]
      [] e.f = "clear"  -> Same(old, new, {a}) /\ new[a] = Empty(D)
      [] e.f = "resize" -> Same(old, new, {a}) /\ ResizeOk(old[a], e.rd, new[a])
      [] e.f = "reserve"-> new = old
      [] e.f = "push"   -> Same(old, new, {a}) /\ e.ok = 1 /\ new[a] = PushScalar(old[a], e.x)
      [] e.f = "pushrow" -> IF PushOk(old[a], Src(e))
                            THEN Same(old, new, {a}) /\ e.ok = 1 /\ new[a] = PushRow(old[a], Src(e))
                            ELSE e.ok # 1 /\ new = old
      [] e.f = "fill"   -> Same(old, new, {a}) /\ new[a] = [d |-> old[a].d, v |-> e.r]
      [] OTHER -> FALSE
TInit == pos = 0 /\ regs = <<>> /\ bad = FALSE
TNext == /\ pos < NLines /\ pos' = pos + 1
         /\ LET e == Trace[pos + 1] IN
            IF e.op = "begin" THEN regs' = [i \in 1..e.n |-> Empty(e.D)] /\ bad' = FALSE
            ELSE IF e.op = "crash" THEN Reject(pos + 1) /\ bad' = TRUE /\ UNCHANGED regs
            ELSE IF bad THEN UNCHANGED <<regs, bad>>
            ELSE IF Views(e) /\ Step(regs, e, Obs(e)) THEN regs' = Obs(e) /\ bad' = FALSE
            ELSE Reject(pos + 1) /\ bad' = TRUE /\ UNCHANGED regs
         /\ (pos + 1 = NLines => Done(pos + 1))
TraceSpec == TInit /\ [][TNext]_<<pos, regs, bad>>
=============================================================================
