------------------------------- MODULE AsciiMC -------------------------------
(* Every small table: what is written can be read back, with any layout.      *)
EXTENDS Ascii
CONSTANTS R
VARIABLES n, a, b, o
Opt(hdr, auto, minw, csv) == [hdr |-> hdr, hc |-> <<35, 32>>, delim |-> IF csv THEN <<44>> ELSE <<32>>, auto |-> auto, minw |-> minw]
Init == /\ n \in 0..R /\ a \in [1..n -> {0, -7, 12}] /\ b \in [1..n -> {<<97>>, <<97, 98, 99>>, <<45, 49>>}]
        /\ o \in {Opt(h, w, m, c) : h \in {<<>>, <<<<120>>, <<121, 121, 121, 121>>>>}, w \in {0, 1}, m \in {0, 4}, c \in BOOLEAN}
Spec == Init /\ [][FALSE]_<<n, a, b, o>>
Cols == <<<<[t |-> "v", k |-> "i", m |-> 1, rows |-> n, v |-> a], 1>>, <<[t |-> "v", k |-> "s", m |-> 1, rows |-> n, v |-> b], 1>>>>
IOpt == [auto |-> 1, pat |-> <<35>>, first |-> 0, delim |-> o.delim, single |-> IF o.delim = <<44>> THEN 1 ELSE 0]
As == <<[t |-> "v", k |-> "i"], [t |-> "v", k |-> "s"]>>
RoundTrip == LET ls == DataLines(Written(o, Cols), IOpt) IN
    /\ Len(ls) = n /\ ReadPossible(ls, IOpt, As)
    /\ \A i \in 1..n : LET w == Fields(ls[i], IOpt) IN Len(w) = 2 /\ SameCell("i", w[1], a[i]) /\ Trim(w[2], {SPACE}) = b[i]
\* all lines of an aligned table have the same length
Aligned == o.auto = 1 => LET L == FileLines(Written(o, Cols)) IN \A i, j \in 1..(Len(L) - 1) : Len(L[i]) = Len(L[j])
=============================================================================
