-------------------------------- MODULE Fits --------------------------------
(* FITS files.  A file is a sequence of HDUs; a handle has a current HDU and *)
(* a table orientation.  Element kinds: b bool, c char, s short, l int_t,    *)
(* u uint_t, f float, d double, a string; files of other programs also have   *)
(* j 32 bit integers, w unsigned 16 bit integers, o logical values.  Numbers  *)
(* are in quarters; z holds the value that stands for undefined, if any.     *)
EXTENDS VecBase
EmptyHdu == [t |-> "empty", k |-> "-", d |-> <<>>, v |-> <<>>, rows |-> 1, cols |-> <<>>, keys |-> <<>>, z |-> <<>>]
TableHdu == [EmptyHdu EXCEPT !.t = "table"]
Ints == {"b", "c", "s", "l", "u", "j", "w"}
Kinds == Ints \cup {"f", "d", "a"}
\* can data stored as kind s be read as kind m
CanRead(m, s, narrow) ==
    CASE m = "a" -> s = "a"
      [] m \in {"b", "c"} -> s \in {"b", "c"} \/ (m = "b" /\ s = "o") \/ (narrow /\ s \in {"s", "l", "u", "j", "w"})
      [] m = "s" -> s \in {"b", "c", "s", "w"} \/ (narrow /\ s \in {"l", "u", "j"})
      [] m \in {"l", "u"} -> s \in Ints
      [] m = "f" -> s \in Ints \cup {"f"} \/ (narrow /\ s = "d")
      [] m = "d" -> s \notin {"a", "o"}
\* undefined integers are read as not-a-number by floating point types
Undef(k, z, v) == IF k \in {"f", "d"} /\ z # <<>> THEN [i \in 1..Len(v) |-> IF v[i] = z[1] THEN VNAN ELSE v[i]] ELSE v
\* unsigned and signed integers are stored in the same way
Stored(k) == IF k = "u" THEN "l" ELSE k
\* is the (quartered) value representable
Fits(m, x) == CASE m \in {"b", "o"} -> x \in {0, 4} [] m = "w" -> x \in 0..262140 [] m = "c" -> x \in (-512)..508 [] m = "s" -> x \in (-131072)..131068
                [] m = "u" -> x >= 0 [] OTHER -> TRUE
AllFit(m, v) == m = "a" \/ \A i \in 1..Len(v) : Fits(m, v[i])
(***************************************************************************)
(* Transitions: each takes the file f (sequence of HDUs) and the current    *)
(* HDU c (from 1) and gives [ok, f, c].                                     *)
(***************************************************************************)
Fail(f, c) == [ok |-> FALSE, f |-> f, c |-> c]
Good(f, c) == [ok |-> TRUE, f |-> f, c |-> c]
RECURSIVE Empties(_)
Empties(n) == IF n <= 0 THEN <<>> ELSE <<EmptyHdu>> \o Empties(n - 1)
\* k counts from 0
Reach(f, c, k, write) == IF k < Len(f) THEN Good(f, k + 1)
                         ELSE IF write THEN Good(f \o Empties(k + 1 - Len(f)), k + 1) ELSE Fail(f, c)
RemoveHdu(f, c) == IF c = 1 THEN Fail(f, c)
                   ELSE Good([i \in 1..(Len(f) - 1) |-> IF i < c THEN f[i] ELSE f[i + 1]], Min2(c, Len(f) - 1))
WriteImage(f, c, k, d, v) == IF f[c].t # "empty" THEN Fail(f, c)
    ELSE Good([f EXCEPT ![c] = [@ EXCEPT !.t = "image", !.k = Stored(k), !.d = d, !.v = v]], c)
WriteEmpty(f, c) == IF f[c].t # "empty" THEN Fail(f, c) ELSE Good(f, c)
UpdateImage(f, c, k, d, v) == IF f[c].t # "image" \/ f[c].d # d \/ ~CanRead(k, f[c].k, FALSE) THEN Fail(f, c)
    ELSE Good([f EXCEPT ![c].v = v], c)
\* the table of the current HDU, created if the HDU is empty
MakeTable(f, c) ==
    CASE f[c].t = "table" -> Good(f, c)
      [] f[c].t = "image" -> Fail(f, c)
      [] OTHER -> IF c > 1 THEN Good([f EXCEPT ![c] = TableHdu], c)
                  ELSE IF Len(f) = 1 THEN Good(<<EmptyHdu, TableHdu>>, 2) ELSE Fail(f, c)
\* orientation found when reaching an HDU
FormatOf(h) == IF h.t = "table" /\ h.cols # <<>> /\ h.rows # 1 THEN "row" ELSE "col"
\* columns: [n: name, k: kind, e: shape of one cell, v: values]; a scalar has sc = TRUE
HasCol(h, n) == \E i \in 1..Len(h.cols) : h.cols[i].n = n
Col(h, n) == h.cols[CHOOSE i \in 1..Len(h.cols) : h.cols[i].n = n]
DropCol(h, n) == [h EXCEPT !.cols = SelectSeq(@, LAMBDA q : q.n # n)]
CellShape(fmt, d) == IF d = <<>> THEN <<>> ELSE IF fmt = "row" THEN Tail(d) ELSE d
RowsOf(fmt, d) == IF fmt = "row" /\ d # <<>> THEN d[1] ELSE 1
\* add a column of shape d (<<>> for a single value)
AddCol(h, fmt, n, k, d, v) == [h EXCEPT !.cols = Append(@, [n |-> n, k |-> Stored(k), e |-> CellShape(fmt, d), v |-> v, z |-> <<>>]),
                                        !.rows = IF h.cols = <<>> THEN RowsOf(fmt, d) ELSE @]
WriteCol(f, c, fmt, n, k, d, v) ==
    LET m == MakeTable(f, c) IN
    IF ~m.ok THEN m
    ELSE LET h == m.f[m.c] IN
         IF h.cols # <<>> /\ h.rows # RowsOf(fmt, d) THEN Fail(m.f, m.c)
         ELSE Good([m.f EXCEPT ![m.c] = AddCol(h, fmt, n, k, d, v)], m.c)
UpdateCol(f, c, fmt, n, k, d, v) ==
    LET m == MakeTable(f, c) IN
    IF ~m.ok THEN m ELSE WriteCol([m.f EXCEPT ![m.c] = DropCol(@, n)], m.c, fmt, n, k, d, v)
RemoveCol(f, c, n) == Good([f EXCEPT ![c] = DropCol(@, n)], c)
\* shape seen by readers
ShapeOf(h, q) == IF h.rows # 1 THEN <<h.rows>> \o q.e ELSE IF q.e = <<>> THEN <<1>> ELSE q.e
Ones(n) == [i \in 1..n |-> 1]
\* reading into D dimensions (0: a single value): [ok, d, v]
ReadCol(h, n, k, D, o) ==
    LET no == [ok |-> FALSE, d |-> <<>>, v |-> <<>>] IN
    IF ~HasCol(h, n) THEN no
    ELSE LET q == Col(h, n) s == ShapeOf(h, q) yes(d) == [ok |-> TRUE, d |-> d, v |-> Undef(k, q.z, q.v)] IN
         IF ~CanRead(k, q.k, o.narrow = 1) THEN no
         ELSE IF D = 0 THEN (IF s = <<1>> THEN yes(<<>>) ELSE no)
         ELSE IF Len(s) = D THEN yes(s)
         ELSE IF Len(s) < D THEN (IF o.promote = 1 THEN yes(Ones(D - Len(s)) \o s) ELSE no)
         ELSE IF D = 1 /\ o.flatten = 1 /\ k # "a" THEN yes(<<Prod(s)>>) ELSE no
\* elements at ix, a prefix of the coordinates (from 0); the remaining axes are taken whole
ElemRange(s, ix) == LET rest == SubSeq(s, Len(ix) + 1, Len(s)) IN
    [ok |-> \A i \in 1..Len(ix) : ix[i] < s[i], d |-> rest, at |-> Flat(SubSeq(s, 1, Len(ix)), ix) * Prod(rest), n |-> Prod(rest)]
Overwrite(v, at, w) == [i \in 1..Len(v) |-> IF i > at /\ i <= at + Len(w) THEN w[i - at] ELSE v[i]]
UpdateElems(f, c, n, k, ix, d, w) ==
    IF ~HasCol(f[c], n) THEN Fail(f, c)
    ELSE LET q == Col(f[c], n) s == ShapeOf(f[c], q) IN
         IF Len(ix) + Len(d) # Len(s) \/ ~CanRead(k, q.k, TRUE) THEN Fail(f, c)
         ELSE LET r == ElemRange(s, ix) IN
              IF ~r.ok \/ d # r.d THEN Fail(f, c)
              ELSE Good([f EXCEPT ![c].cols = [i \in 1..Len(@) |-> IF @[i].n = n THEN [@[i] EXCEPT !.v = Overwrite(@, r.at, w)] ELSE @[i]]], c)
\* rectangular part of an image: per axis [lo, hi] from 0, both included
Subset(h, r) == LET d == [i \in 1..Len(r) |-> r[i][2] - r[i][1] + 1] IN
    [d |-> d, v |-> [p \in 1..Prod(d) |-> LET ix == Unflat(d, p - 1) IN h.v[1 + Flat(h.d, [i \in 1..Len(d) |-> ix[i] + r[i][1]])]]]
SubsetOk(h, r) == \A i \in 1..Len(r) : r[i][1] <= r[i][2] /\ r[i][2] < h.d[i]
\* keywords: [n, v], the first one of a name counts
HasKey(h, n) == \E i \in 1..Len(h.keys) : h.keys[i].n = n
KeyPos(h, n) == CHOOSE i \in 1..Len(h.keys) : h.keys[i].n = n /\ \A j \in 1..(i - 1) : h.keys[j].n # n
AddKey(h, n, v) == [h EXCEPT !.keys = Append(@, [n |-> n, v |-> v])]
SetKey(h, n, v) == IF HasKey(h, n) THEN [h EXCEPT !.keys = [@ EXCEPT ![KeyPos(h, n)].v = v]] ELSE AddKey(h, n, v)
DelKey(h, n) == IF HasKey(h, n) THEN LET p == KeyPos(h, n) IN [h EXCEPT !.keys = SubSeq(@, 1, p - 1) \o SubSeq(@, p + 1, Len(@))] ELSE h
\* where a handle of a class starts
FirstWith(f, t) == LET P == {i \in 1..Len(f) : f[i].t = t} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
OpenAt(f, cls) == IF cls \in {"ii", "io"} THEN FirstWith(f, "image") ELSE IF cls \in {"it", "t"} THEN FirstWith(f, "table") ELSE 1
CanWrite(cls) == cls \in {"oi", "io", "ot", "t", "of", "f"}
\* every file is well formed
WellFormed(f) == /\ f # <<>> => f[1].t # "table"
                 /\ \A i \in 1..Len(f) : LET h == f[i] IN
                       /\ h.t = "image" => Len(h.v) = Prod(h.d) /\ h.cols = <<>>
                       /\ h.t = "empty" => h.v = <<>> /\ h.cols = <<>>
                       /\ h.t = "table" => \A j \in 1..Len(h.cols) : Len(h.cols[j].v) = h.rows * Prod(h.cols[j].e)
=============================================================================
