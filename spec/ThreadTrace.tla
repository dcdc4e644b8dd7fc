---------------------------- MODULE ThreadTrace ----------------------------
(* Observed executions of the concurrent components: e.ev is the total      *)
(* order of call / return / effect events of one execution.                 *)
EXTENDS VecBase, TraceLib

Fold(step(_, _), init, ev) == FoldLeft(step, init, ev)

(* --- queue: 1 push call x, 2 push return x, 3 pop call, 4 pop return ok x, 5/6 size, 7/8 empty, 9 clear, 10 live items at the end *)
QInit == [ok |-> TRUE, called |-> <<>>, ret |-> 0, popped |-> 0, snap |-> 0]
\* linearizability of a single-producer single-consumer FIFO, as a monitor: a push takes effect between
\* its call and its return; so `called` bounds the content from above, `ret` (as of the consumer's call) from below
QStep(s, v) ==
    CASE v[1] = 1 -> [s EXCEPT !.called = Append(@, v[2])]
      [] v[1] = 2 -> [s EXCEPT !.ret = Len(s.called)]
      [] v[1] \in {3, 5, 7} -> [s EXCEPT !.snap = s.ret - s.popped]
      [] v[1] = 4 -> IF v[2] = 1
                     THEN [s EXCEPT !.ok = @ /\ s.popped < Len(s.called) /\ (s.popped < Len(s.called) => v[3] = s.called[s.popped + 1]),
                                    !.popped = @ + 1]
                     ELSE [s EXCEPT !.ok = @ /\ s.snap <= 0]
      [] v[1] = 6 -> [s EXCEPT !.ok = @ /\ s.snap <= v[2] /\ v[2] <= Len(s.called) - s.popped]
      [] v[1] = 8 -> [s EXCEPT !.ok = @ /\ IF v[2] = 1 THEN s.snap <= 0 ELSE Len(s.called) > s.popped]
      [] v[1] = 9 -> [s EXCEPT !.called = <<>>, !.ret = 0, !.popped = 0, !.snap = 0]
      [] v[1] = 10 -> [s EXCEPT !.ok = @ /\ v[2] = 0]
      [] OTHER -> [s EXCEPT !.ok = FALSE]

(* --- worker: 1 push i, 2 start i, 3 end i, 4 wait call, 5 wait return *)
WInit == [ok |-> TRUE, pushed |-> 0, started |-> 0, ended |-> 0, th |-> 0]
WStep(s, v) ==
    CASE v[1] = 1 -> [s EXCEPT !.pushed = @ + 1, !.ok = @ /\ v[2] = s.pushed + 1]
      [] v[1] = 2 -> [s EXCEPT !.ok = @ /\ v[2] = s.started + 1 /\ s.started = s.ended /\ v[2] <= s.pushed /\ v[3] # 0, !.started = @ + 1, !.th = v[3]]
      [] v[1] = 3 -> [s EXCEPT !.ok = @ /\ v[2] = s.ended + 1 /\ s.started = v[2] /\ v[3] = s.th, !.ended = @ + 1]
      [] v[1] = 4 -> s
      [] v[1] = 5 -> [s EXCEPT !.ok = @ /\ s.ended = s.pushed /\ s.started = s.pushed]
      [] OTHER -> [s EXCEPT !.ok = FALSE]

(* --- pool: 1 give x k, 2 start x who, 3 end x who, 4/5 consume_all, 6/7 join, 12/8 remaining, 9 start n, 11 workspace uses *)
PInit(n) == [ok |-> TRUE, n |-> n, given |-> <<>>, runs |-> <<>>, busy |-> {}, ended |-> {}, all |-> FALSE, taken |-> 0, up |-> FALSE, calls |-> 0]
Given(s) == {s.given[i][1] : i \in 1..Len(s.given)}
RunX(s) == {s.runs[i][1] : i \in 1..Len(s.runs)}
Dest(s, x) == LET i == CHOOSE j \in 1..Len(s.given) : s.given[j][1] = x IN s.given[i][2]
PStep(s, v) ==
    CASE v[1] = 9 -> [s EXCEPT !.n = v[2], !.given = <<>>, !.runs = <<>>, !.busy = {}, !.ended = {}, !.all = FALSE, !.taken = 0, !.up = TRUE, !.calls = 0]
      [] v[1] = 1 -> [s EXCEPT !.given = Append(@, <<v[2], v[3]>>), !.all = FALSE]
      [] v[1] = 2 -> [s EXCEPT !.ok = @ /\ s.up /\ v[2] \in Given(s) /\ v[2] \notin RunX(s)
                                 \* one item at a time per worker
                                 /\ \A b \in s.busy : b[2] # v[3]
                                 \* a worker takes its items in the order they were given
                                 /\ (v[2] \in Given(s) => \A i \in 1..Len(s.runs) : LET r == s.runs[i] IN
                                        /\ r[2] = v[3] => r[1] < v[2]
                                        /\ Dest(s, v[2]) # -1 /\ Dest(s, r[1]) # -1 => ((r[2] = v[3]) <=> (Dest(s, r[1]) = Dest(s, v[2])))),
                               !.runs = Append(@, <<v[2], v[3]>>), !.busy = @ \cup {<<v[2], v[3]>>}]
      [] v[1] = 3 -> [s EXCEPT !.ok = @ /\ <<v[2], v[3]>> \in s.busy, !.busy = @ \ {<<v[2], v[3]>>}, !.ended = @ \cup {v[2]}]
      [] v[1] = 11 -> [s EXCEPT !.ok = @ /\ v[3] > 0]
      [] v[1] = 12 -> [s EXCEPT !.taken = Cardinality(RunX(s))]
      [] v[1] = 8 -> [s EXCEPT !.ok = @ /\ v[2] <= Len(s.given) - s.taken /\ v[2] >= Len(s.given) - Cardinality(RunX(s)) - s.n]
      [] v[1] = 4 -> s
      [] v[1] = 5 -> [s EXCEPT !.all = TRUE, !.ok = @ /\ Cardinality(Given(s) \ RunX(s)) <= s.n]
      [] v[1] = 6 -> s
      [] v[1] = 7 -> [s EXCEPT !.ok = @ /\ s.busy = {} /\ (s.all => s.ended = Given(s)), !.up = FALSE]
      [] OTHER -> [s EXCEPT !.ok = FALSE]
\* the workers of the pool are at most n different threads, none of them the caller
Threads(e) == Cardinality({e.ev[i][3] : i \in {j \in 1..Len(e.ev) : e.ev[j][1] = 2}})

(* --- parallel loop: 3 execute a b, 1 start i, 2 end i, 4 return *)
LInit == [ok |-> TRUE, a |-> 0, b |-> 0, in |-> FALSE, st |-> {}, en |-> {}]
LStep(s, v) ==
    CASE v[1] = 3 -> [s EXCEPT !.a = v[2], !.b = v[3], !.in = TRUE, !.st = {}, !.en = {}]
      [] v[1] = 1 -> [s EXCEPT !.ok = @ /\ s.in /\ v[2] >= s.a /\ v[2] < s.b /\ v[2] \notin s.st, !.st = @ \cup {v[2]}]
      [] v[1] = 2 -> [s EXCEPT !.ok = @ /\ v[2] \in s.st /\ v[2] \notin s.en, !.en = @ \cup {v[2]}]
      [] v[1] = 4 -> [s EXCEPT !.ok = @ /\ s.en = s.a..(s.b - 1), !.in = FALSE]
      [] OTHER -> [s EXCEPT !.ok = FALSE]

Accept(e) ==
    CASE e.op = "info" -> TRUE
      [] e.op \in {"queue", "worker", "pool", "pfor"} /\ e.fin # 1 -> FALSE    \* deadlock or endless execution
      [] e.op = "queue" -> Fold(QStep, QInit, e.ev).ok
      [] e.op = "worker" -> Fold(WStep, WInit, e.ev).ok
      [] e.op = "pool" -> Fold(PStep, PInit(e.h[1]), e.ev).ok
      [] e.op = "pfor" -> Fold(LStep, LInit, e.ev).ok
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
