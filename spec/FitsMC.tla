------------------------------- MODULE FitsMC -------------------------------
(* All short histories of operations on one file through one handle.         *)
EXTENDS Fits
CONSTANTS Steps, MaxHdu
VARIABLES f, c, fmt, n, last
vars == <<f, c, fmt, n, last>>
Names == {"A", "B"}
Shapes == {<<>>, <<1>>, <<2>>, <<2, 1>>, <<2, 2>>, <<0>>}
Data(d) == [i \in 1..Prod(d) |-> i + n * 10]
Init == f = <<EmptyHdu>> /\ c = 1 /\ fmt = "col" /\ n = 0 /\ last = [op |-> "none"]
Apply(r, fm, l) == f' = r.f /\ c' = r.c /\ fmt' = fm /\ n' = n + 1 /\ last' = [l EXCEPT !.ok = r.ok]
L(op, nm, d, v) == [op |-> op, n |-> nm, d |-> d, v |-> v, ok |-> TRUE, old |-> f, at |-> c]
Next == /\ n < Steps
        /\ \/ \E k \in 0..(MaxHdu - 1) : LET r == Reach(f, c, k, TRUE) IN Apply(r, FormatOf(r.f[r.c]), L("reach", "", <<k>>, <<>>))
           \/ LET r == RemoveHdu(f, c) IN Apply(r, FormatOf(r.f[r.c]), L("remove", "", <<>>, <<>>))
           \/ \E d \in Shapes : d # <<>> /\ Apply(WriteImage(f, c, "d", d, Data(d)), fmt, L("image", "", d, Data(d)))
           \/ \E d \in Shapes : d # <<>> /\ Apply(UpdateImage(f, c, "d", d, Data(d)), fmt, L("update", "", d, Data(d)))
           \/ f[c].t # "image" /\ f[c].cols = <<>> /\ \E g \in {"row", "col"} : Apply(Good(f, c), g, L("format", "", <<>>, <<>>))
           \/ \E m \in Names, d \in Shapes : ~HasCol(f[c], m) /\ Apply(WriteCol(f, c, fmt, m, "d", d, Data(d)), fmt, L("wcol", m, d, Data(d)))
           \/ \E m \in Names, d \in Shapes : Apply(UpdateCol(f, c, fmt, m, "d", d, Data(d)), fmt, L("ucol", m, d, Data(d)))
           \/ \E m \in Names : f[c].t = "table" /\ Apply(RemoveCol(f, c, m), fmt, L("rcol", m, <<>>, <<>>))
           \/ \E m \in Names : Apply(Good([f EXCEPT ![c] = SetKey(@, m, n)], c), fmt, L("key", m, <<>>, <<>>))
           \/ \E m \in Names : f[c].t = "table" /\ HasCol(f[c], m) /\ Apply(UpdateElems(f, c, m, "d", <<1>>, <<>>, <<99>>), fmt, L("elem", m, <<>>, <<>>))
Spec == Init /\ [][Next]_vars
Bound == Len(f) <= MaxHdu
Ok == WellFormed(f) /\ c \in 1..Len(f)
Strict == [narrow |-> 0, promote |-> 0, flatten |-> 0]
\* what was just written is what is read, whatever was there before
ReadBack == last.op \in {"wcol", "ucol"} /\ last.ok =>
    LET h == f[c] D == Len(last.d) r == ReadCol(h, last.n, "d", D, Strict) IN
    (fmt = "col" \/ h.rows # 1) => (r.ok /\ r.v = last.v /\ (D > 0 => r.d = last.d))
\* other HDUs keep their content
OthersKept == last.op \in {"image", "update", "wcol", "ucol", "rcol", "key", "elem"} =>
    \A i \in 1..Len(last.old) : i # c => f[i] = (IF i = 1 /\ last.at = 1 /\ c = 2 THEN EmptyHdu ELSE last.old[i])
ReachKeeps == last.op = "reach" => SubSeq(f, 1, Len(last.old)) = last.old /\ c = last.d[1] + 1
\* other columns keep their content
ColsKept == last.op \in {"wcol", "ucol", "rcol", "elem"} /\ last.ok /\ last.at = c =>
    \A i \in 1..Len(last.old[c].cols) : LET q == last.old[c].cols[i] IN q.n # last.n => HasCol(f[c], q.n) /\ Col(f[c], q.n) = q
=============================================================================
