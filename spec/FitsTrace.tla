------------------------------ MODULE FitsTrace ------------------------------
(* Replays recorded sessions on one file: "begin" starts from no file, every *)
(* other line is one call with its outcome, or an independent dump of the    *)
(* closed file.                                                              *)
EXTENDS Fits, TraceLib
VARIABLES s, bad
Start == [f |-> <<>>, c |-> 1, fmt |-> "col", cls |-> "-", fresh |-> FALSE]
Up(n) == [i \in 1..Len(n) |-> IF n[i] \in 97..122 THEN n[i] - 32 ELSE n[i]]
RECURSIVE TrimR(_)
TrimR(t) == IF t # <<>> /\ t[Len(t)] = 32 THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
RECURSIVE TrimL(_)
TrimL(t) == IF t # <<>> /\ t[1] = 32 THEN TrimL(Tail(t)) ELSE t
SameVals(k, w, r) == Len(w) = Len(r) /\ IF k = "a" THEN \A i \in 1..Len(w) : r[i] \in {TrimR(w[i]), TrimL(TrimR(w[i]))} ELSE w = r
\* a transition that succeeds or fails as specified
Does(e, r) == IF r.ok THEN e.ok = 1 /\ e.st = 0 /\ e.cur = r.c - 1 ELSE e.ok # 1
Move(st, r, fm) == [st EXCEPT !.f = r.f, !.c = r.c, !.fmt = fm, !.fresh = IF r.ok THEN FALSE ELSE @]
Keep(st, r) == Move(st, r, st.fmt)
H(st) == st.f[st.c]
Ambiguous(st) == H(st).t = "table" /\ H(st).rows = 1 /\ st.fmt = "row"
SameKind(a, b) == a = b \/ (a \in {"u", "l"} /\ b \in {"u", "l"})
Numeric(d) == IF d = <<>> THEN <<>> ELSE d
KeyOf(e) == [t |-> IF e.t = "s" THEN "s" ELSE "n", v |-> e.v]
DumpOk(f, hs) == /\ Len(hs) = Len(f)
    /\ \A i \in 1..Len(f) : LET a == f[i] b == hs[i] IN
         /\ b.st = 0 /\ b.t = a.t
         /\ a.t = "image" => b.d = a.d /\ b.v = a.v /\ SameKind(a.k, b.k)
         /\ a.t = "table" => (a.cols # <<>> => b.rows = a.rows) /\ Len(a.cols) = Len(b.cols)
                /\ \A j \in 1..Len(b.cols) : HasCol(a, Up(b.cols[j].n)) /\ LET q == Col(a, Up(b.cols[j].n)) IN
                       SameKind(q.k, b.cols[j].k) /\ SameVals(q.k, q.v, b.cols[j].v)
         /\ Len(a.keys) = Len(b.keys) /\ \A j \in 1..Len(a.keys) : b.keys[j].n = a.keys[j].n /\ [t |-> b.keys[j].t, v |-> b.keys[j].v] = a.keys[j].v
Info(h, q, x) == /\ x.ty \in (CASE q.k \in {"b", "c"} -> {"b", "c"} [] q.k = "o" -> {"b"} [] q.k \in {"s", "l", "u", "j", "w"} -> {"i"} [] OTHER -> {q.k})
                 /\ x.d = ShapeOf(h, q) /\ (q.k = "a" => \A i \in 1..Len(q.v) : Len(q.v[i]) <= x.len)
\* what a header says of the axes and of a keyword
Says(h, e) == LET n == <<75, 49>> IN e.na = Len(h.d) /\ e.key = IF HasKey(h, n) THEN <<h.keys[KeyPos(h, n)].v.v>> ELSE <<>>
\* outcome of a call: [ok: is the call accepted, s: next state]
Yes(st) == [ok |-> TRUE, s |-> st]
Judge(b, st) == [ok |-> b, s |-> st]
Step(st, e) ==
    CASE e.op = "open" ->
            IF e.k \in {"oi", "ot", "of"} THEN Judge(e.ok = 1 /\ e.st = 0, [Start EXCEPT !.f = <<EmptyHdu>>, !.cls = e.k, !.fresh = TRUE])
            ELSE LET p == OpenAt(st.f, e.k) IN
                 IF p = 0 THEN (IF e.ok = 1 THEN Judge(e.cur = 0, [st EXCEPT !.c = 1, !.fmt = "col", !.cls = e.k]) ELSE Yes(st))
                 ELSE Judge(e.ok = 1 /\ e.cur = p - 1, [st EXCEPT !.c = p, !.fmt = FormatOf(st.f[p]), !.cls = e.k])
      [] e.op = "adopt" -> LET G == [i \in 1..Len(e.h) |-> LET b == e.h[i] IN
                [EmptyHdu EXCEPT !.t = b.t, !.k = b.k, !.d = b.d, !.v = b.v, !.rows = b.rows, !.z = b.z,
                                 !.cols = [j \in 1..Len(b.cols) |-> [n |-> Up(b.cols[j].n), k |-> b.cols[j].k, e |-> b.cols[j].e, v |-> b.cols[j].v, z |-> b.cols[j].z]]]]
            IN Judge(\A i \in 1..Len(e.h) : e.h[i].st = 0, [Start EXCEPT !.f = G])
      [] e.op = "close" -> Judge(e.ok = 1 /\ e.o = 0, st)
      [] e.op = "move" -> Judge(e.ok = 1 /\ e.o = 0 /\ (st.fresh \/ e.cur = st.c - 1), st)
      [] e.op = "dump" -> Judge(DumpOk(st.f, e.h), st)
      [] e.op = "query" ->
            IF st.fresh THEN Judge(e.ok = 1 /\ e.n \in {0, 1} /\ e.at = 0 /\ e.ty \in {"null", "empty"} /\ e.ax = 0, st)
            ELSE LET h == H(st) IN Judge(e.ok = 1 /\ e.n = Len(st.f) /\ e.at = st.c - 1 /\ e.ty = h.t /\ e.ax = Len(h.d) /\ e.d = h.d, st)
      [] e.op = "reach" -> LET r == Reach(st.f, st.c, e.k, CanWrite(st.cls)) IN Judge(Does(e, r), Move(st, r, FormatOf(r.f[r.c])))
      [] e.op = "rmhdu" -> LET r == RemoveHdu(st.f, st.c) IN Judge(Does(e, r), Move(st, r, FormatOf(r.f[r.c])))
      [] e.op = "wimg" -> LET r == WriteImage(st.f, st.c, e.k, e.d, e.v) IN Judge(Does(e, r), Keep(st, r))
      [] e.op = "wempty" -> LET r == WriteEmpty(st.f, st.c) IN Judge(Does(e, r), Keep(st, r))
      [] e.op = "uimg" -> LET r == UpdateImage(st.f, st.c, e.k, e.d, e.v) IN
            IF r.ok /\ ~AllFit(H(st).k, e.v) THEN Yes(st)
            ELSE Judge(Does(e, r), Keep(st, r))
      [] e.op = "rimg" -> LET h == H(st) IN
            IF h.t # "image" \/ Len(h.d) # e.D \/ ~CanRead(e.k, h.k, FALSE) THEN Judge(e.ok # 1, st)
            ELSE IF ~AllFit(e.k, h.v) THEN Yes(st) ELSE Judge(e.ok = 1 /\ e.d = h.d /\ e.v = Undef(e.k, h.z, h.v), st)
      [] e.op = "pixel" -> LET h == H(st) IN
            IF ~CanRead(e.k, h.k, FALSE) \/ \E i \in 1..Len(h.d) : e.p[i] >= h.d[i] THEN Judge(e.ok # 1, st)
            ELSE Judge(e.ok = 1 /\ e.v = Undef(e.k, h.z, <<h.v[1 + Flat(h.d, e.p)]>>), st)
      [] e.op = "subset" -> LET h == H(st) IN
            IF Prod(h.d) = 0 THEN Yes(st) ELSE IF ~CanRead(e.k, h.k, FALSE) \/ ~SubsetOk(h, e.r) THEN Judge(e.ok # 1, st)
            ELSE LET x == Subset(h, e.r) IN Judge(e.ok = 1 /\ e.d = x.d /\ e.v = Undef(e.k, h.z, x.v), st)
      [] e.op = "format" -> Judge(e.ok = 1, [st EXCEPT !.fmt = e.v])
      [] e.op \in {"wcol", "alloc"} ->
            LET v == IF e.op = "alloc" THEN Repeat(0, Prod(e.d)) ELSE e.v r == WriteCol(st.f, st.c, st.fmt, Up(e.n), e.k, e.d, v) IN Judge(Does(e, r), Keep(st, r))
      [] e.op = "ucol" -> LET r == UpdateCol(st.f, st.c, st.fmt, Up(e.n), e.k, e.d, e.v) IN Judge(Does(e, r), Keep(st, r))
      [] e.op = "wcols" ->
            LET a(x) == WriteCol(x.f, x.c, st.fmt, Up(e.cs[1].n), e.cs[1].k, e.cs[1].d, e.cs[1].v)
                b(x) == WriteCol(x.f, x.c, st.fmt, Up(e.cs[2].n), e.cs[2].k, e.cs[2].d, e.cs[2].v)
                c(x) == WriteCol(x.f, x.c, st.fmt, Up(e.cs[3].n), e.cs[3].k, e.cs[3].d, e.cs[3].v)
                r1 == a(st) r2 == IF r1.ok THEN b(r1) ELSE r1 r == IF r2.ok THEN c(r2) ELSE r2
            IN Judge(Does(e, r), Keep(st, r))
      [] e.op = "rcols" -> LET o == [narrow |-> 0, promote |-> 0, flatten |-> 0] h == H(st) x == ReadCol(h, Up(<<102, 108, 117, 120>>), "d", 1, o) y == ReadCol(h, <<73, 68>>, "u", 1, o) IN
            IF x.ok /\ (y.ok \/ ~HasCol(h, <<73, 68>>)) /\ ~Ambiguous(st) /\ AllFit("u", y.v)
            THEN Judge(e.ok = 1 /\ e.fd = x.d /\ e.fv = x.v /\ (IF y.ok THEN e.gd = y.d /\ e.gv = y.v ELSE e.gd = <<0>>), st) ELSE Yes(st)
      [] e.op = "rmcol" -> LET r == RemoveCol(st.f, st.c, Up(e.n)) IN Judge(Does(e, r), Keep(st, r))
      [] e.op = "rcol" -> LET h == H(st) n == Up(e.n) x == ReadCol(h, n, e.k, e.D, e.o) IN
            IF Ambiguous(st) \/ (e.D = 0 /\ h.rows # 1) THEN Yes(st)
            ELSE IF ~HasCol(h, n) /\ e.o.missing = 1 THEN Judge(e.ok = 1 /\ e.g = 1 /\ e.d = e.od /\ e.v = e.ov, st)
            ELSE IF e.D = 0 /\ HasCol(h, n) /\ (IF HasCol(h, n) THEN Col(h, n).k = "a" /\ Col(h, n).e # <<>> ELSE FALSE) THEN Yes(st)
            ELSE IF x.ok THEN (IF ~AllFit(e.k, x.v) THEN Yes(st) ELSE Judge(e.ok = 1 /\ e.g = 1 /\ e.d = x.d /\ SameVals(e.k, x.v, e.v), st))
            ELSE Judge(IF e.ok = 1 THEN e.g = 0 ELSE TRUE, st)
      [] e.op = "info" -> LET h == H(st) IN
            IF Ambiguous(st) THEN Yes(st)
            ELSE Judge(e.ok = 1 /\ Len(e.all) = Len(h.cols) /\ \A i \in 1..Len(h.cols) : HasCol(h, Up(e.all[i].n)) /\ Info(h, Col(h, Up(e.all[i].n)), e.all[i])
                       /\ \A p, q \in 1..Len(e.all) : p # q => e.all[p].n # e.all[q].n, st)
      [] e.op = "info1" -> LET h == H(st) IN
            IF Ambiguous(st) THEN Yes(st)
            ELSE Judge(e.ok = 1 /\ (IF HasCol(h, Up(e.n)) THEN e.g = 1 /\ Up(e.c.n) = Up(e.n) /\ Info(h, Col(h, Up(e.n)), e.c) ELSE e.g = 0), st)
      [] e.op = "uelem" -> LET r == UpdateElems(st.f, st.c, Up(e.n), e.k, e.ix, e.d, e.v) IN Judge(Does(e, r), Keep(st, r))
      [] e.op = "relem" -> LET h == H(st) q == Col(h, Up(e.n)) sh == ShapeOf(h, q) x == ElemRange(sh, e.ix) IN
            IF Len(e.ix) + e.D # Len(sh) \/ ~CanRead(e.k, q.k, FALSE) THEN Judge(e.ok # 1, st)
            ELSE IF ~x.ok THEN Judge(e.ok # 1, st)
            ELSE LET w == SubSeq(q.v, x.at + 1, x.at + x.n) IN IF ~AllFit(e.k, w) THEN Yes(st) ELSE Judge(e.ok = 1 /\ e.d = x.d /\ e.v = Undef(e.k, q.z, w), st)
      [] e.op = "setkey" -> Judge(e.ok = 1, [st EXCEPT !.f[st.c] = SetKey(@, Up(e.n), KeyOf(e))])
      [] e.op = "addkey" -> Judge(e.ok = 1, [st EXCEPT !.f[st.c] = AddKey(@, Up(e.n), KeyOf(e))])
      [] e.op = "delkey" -> Judge(e.ok = 1, [st EXCEPT !.f[st.c] = DelKey(@, Up(e.n))])
      [] e.op = "haskey" -> Judge(e.ok = 1 /\ (e.g = 1) = HasKey(H(st), Up(e.n)), st)
      [] e.op = "getkey" -> LET h == H(st) n == Up(e.n) old == IF e.t = "s" THEN <<111, 108, 100>> ELSE 28 IN
            IF e.ok # 1 THEN Judge(FALSE, st)
            ELSE IF e.g = 0 THEN Judge(e.v = old /\ (HasKey(h, n) => LET k == h.keys[KeyPos(h, n)].v IN k.t = "s" \/ (e.t = "n")), st)
            ELSE IF ~HasKey(h, n) THEN Judge(FALSE, st)
            ELSE LET k == h.keys[KeyPos(h, n)].v IN
                 Judge(IF e.t = "s" THEN (k.t = "s" => e.v = k.v) ELSE (k.t = "n" => e.v = k.v), st)
      [] e.op = "wheader" -> Judge(e.ok = 1, [st EXCEPT !.f[st.c].keys = @ \o [i \in 1..Len(e.ks) |-> [n |-> e.ks[i].n, v |-> [t |-> "n", v |-> e.ks[i].v]]]])
      [] e.op = "fwrite" -> Judge(e.ok = 1, [st EXCEPT !.f = <<[EmptyHdu EXCEPT !.t = "image", !.k = e.k, !.d = e.d, !.v = e.v, !.keys = [i \in 1..Len(e.ks) |-> [n |-> e.ks[i].n, v |-> [t |-> "n", v |-> e.ks[i].v]]]]>>])
      [] e.op = "fhead" -> IF e.hdu >= Len(st.f) \/ e.sect > 1 THEN Judge(e.ok # 1, st) ELSE Judge(e.ok = 1 /\ Says(st.f[e.hdu + 1], e), st)
      [] e.op = "fupdate" -> LET r == UpdateImage(st.f, e.hdu + 1, e.k, e.d, e.v) IN Judge((e.ok = 1) = r.ok, [st EXCEPT !.f = r.f])
      [] e.op = "fread" -> IF e.hdu >= Len(st.f) THEN Judge(e.ok # 1, st) ELSE Judge(e.ok = 1 /\ e.d = st.f[e.hdu + 1].d /\ e.v = st.f[e.hdu + 1].v /\ (e.hd = 1 => Says(st.f[e.hdu + 1], e)), st)
      [] e.op = "twrite" -> LET r1 == WriteCol(<<EmptyHdu>>, 1, "col", e.cs[1].n, e.cs[1].k, e.cs[1].d, e.cs[1].v)
                                r == WriteCol(r1.f, r1.c, "col", e.cs[2].n, e.cs[2].k, e.cs[2].d, e.cs[2].v) IN Judge(e.ok = 1, [Start EXCEPT !.f = r.f])
      [] e.op = "tupd" -> LET t == FirstWith(st.f, "table") fm == FormatOf(st.f[t]) r1 == UpdateCol(st.f, t, fm, e.cs[1].n, e.cs[1].k, e.cs[1].d, e.cs[1].v)
                              r == UpdateCol(r1.f, r1.c, fm, e.cs[2].n, e.cs[2].k, e.cs[2].d, e.cs[2].v) IN Judge(e.ok = 1, [st EXCEPT !.f = r.f])
      [] e.op = "tcols" -> LET h == st.f[FirstWith(st.f, "table")] IN Judge(e.ok = 1 /\ Len(e.all) = Len(h.cols) /\ \A i \in 1..Len(h.cols) : HasCol(h, e.all[i].n) /\ Info(h, Col(h, e.all[i].n), e.all[i]), st)
      [] e.op = "tread" -> LET h == st.f[FirstWith(st.f, "table")] opt == [narrow |-> 0, promote |-> 0, flatten |-> 0]
                               x(i) == ReadCol(h, e.old[i].n, e.old[i].k, i, opt) all == \A i \in 1..2 : x(i).ok \/ (e.loose = 1 /\ ~HasCol(h, e.old[i].n)) IN
            IF all THEN Judge(e.ok = 1 /\ \A i \in 1..2 : IF x(i).ok THEN e.new[i].d = x(i).d /\ SameVals(e.old[i].k, x(i).v, e.new[i].v) ELSE e.new[i].d = e.old[i].d /\ e.new[i].v = e.old[i].v, st) ELSE Judge(e.ok # 1, st)
      [] e.op = "fdims" -> Judge(e.ok = 1 /\ e.ax = Len(st.f[1].d) /\ e.d = st.f[1].d, st)
      [] OTHER -> Judge(FALSE, st)
TInit == pos = 0 /\ s = Start /\ bad = FALSE
TNext == /\ pos < NLines /\ pos' = pos + 1
         /\ LET e == Trace[pos + 1] IN
            IF e.op = "begin" THEN s' = Start /\ bad' = FALSE
            ELSE IF e.op = "crash" THEN Reject(pos + 1) /\ bad' = TRUE /\ UNCHANGED s
            ELSE IF bad THEN UNCHANGED <<s, bad>>
            ELSE LET r == Step(s, e) IN IF r.ok THEN s' = r.s /\ bad' = FALSE ELSE Reject(pos + 1) /\ bad' = TRUE /\ UNCHANGED s
         /\ (pos + 1 = NLines => Done(pos + 1))
TraceSpec == TInit /\ [][TNext]_<<pos, s, bad>>
=============================================================================
