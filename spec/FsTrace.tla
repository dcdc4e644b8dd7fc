------------------------------- MODULE FsTrace -------------------------------
(* Replays recorded file operations on a real scratch directory: "begin"      *)
(* starts from an empty tree, "dump" is an independent listing of the tree.   *)
EXTENDS Fs, TraceLib
VARIABLES s, bad
NoEx == [o |-> FALSE, p |-> <<>>, pat |-> <<>>, must |-> {}, may |-> {}, seen |-> {}, end |-> FALSE]
Start == [t |-> EmptyTree, ex |-> <<NoEx, NoEx>>, w |-> [p \in {} |-> 0], k |-> 0]
\* entries an explorer has to report, or may report, after the tree became t
Exp(t, x) == IF ~x.o THEN x ELSE [x EXCEPT !.must = @ \cap (IF IsDir(t, x.p) THEN Kids(t, x.p) ELSE {}), !.may = @ \cup (IF IsDir(t, x.p) THEN Kids(t, x.p) ELSE {})]
To(st, t) == [st EXCEPT !.t = t, !.ex = [i \in 1..2 |-> Exp(t, st.ex[i])]]
Judge(b, st) == [ok |-> b, s |-> st]
Cond(e, sure, may, st, t) == IF e.ok # 1 THEN Judge(FALSE, st) ELSE IF e.r = 1 THEN Judge(may, To(st, t)) ELSE Judge(~sure, st)
SetOf(x) == {x[i] : i \in 1..Len(x)}
Exact(x, S) == SetOf(x) = S /\ Len(x) = Cardinality(S)
PathLike(p) == p = <<>> \/ ~Blank(p[Len(p)])
DumpOk(t, h) == Len(h) = Cardinality(DOMAIN t) /\ \A i \in 1..Len(h) : In(t, h[i].p) /\ t[h[i].p].d = (h[i].d = 1) /\ (~t[h[i].p].d => t[h[i].p].v = h[i].v)
Next1(st, e) ==
    CASE e.op = "begin" -> Judge(TRUE, Start)
      [] e.op = "put" -> Judge(TRUE, To([st EXCEPT !.w = [q \in DOMAIN st.w \cup {e.p} |-> IF q = e.p THEN st.k ELSE st.w[q]]], Put(st.t, e.p, FileOf(e.v))))
      [] e.op = "chmod" -> Judge(TRUE, [st EXCEPT !.t[e.p].a = (e.a = 1)])
      [] e.op = "wait" -> Judge(TRUE, [st EXCEPT !.k = @ + 1])
      [] e.op = "dump" -> Judge(DumpOk(st.t, e.h), st)
      [] e.op = "exists" -> Judge(e.ok = 1 /\ ((IsFile(st.t, e.p) /\ ~Free(st.t, e.p)) \/ e.r = (IF In(st.t, e.p) THEN 1 ELSE 0)), st)
      [] e.op = "mkdir" -> LET ok == MkdirOk(st.t, e.p) IN Cond(e, ok, ok, st, IF ok THEN Mkdir(st.t, e.p) ELSE st.t)
      [] e.op = "copy" -> LET sure == CopyOk(st.t, e.p, e.q)
                              may == IsFile(st.t, e.p) /\ IsDir(st.t, Parent(e.q)) /\ ~IsDir(st.t, e.q) /\ Free(st.t, e.p)
                          IN IF e.full = 1 THEN Judge(e.ok = 1 /\ (e.r = 1 => ~(IsFile(st.t, e.p) /\ st.t[e.p].v # <<>>)), st)
                             ELSE Cond(e, sure, may /\ (sure \/ e.p = e.q \/ ~Free(st.t, e.q)), st, IF may /\ e.p # e.q THEN Copy(st.t, e.p, e.q) ELSE st.t)
      [] e.op = "remove" -> IF ~In(st.t, e.p) THEN Judge(e.ok = 1 /\ e.r = 1, st)
                            ELSE Cond(e, RemoveOk(st.t, e.p), st.t[Parent(e.p)].a, st, Del(st.t, e.p))
      [] e.op = "move" -> LET may == MoveMay(st.t, e.p, e.q) IN Cond(e, MoveSure(st.t, e.p, e.q), may, st, IF may THEN Move(st.t, e.p, e.q) ELSE st.t)
      [] e.op = "tostr" -> Judge(e.ok = 1 /\ IF ~In(st.t, e.p) THEN e.v = <<>> ELSE Free(st.t, e.p) => e.v = st.t[e.p].v, st)
      [] e.op = "list" -> Judge(e.ok = 1 /\ Exact(e.v, ListOf(st.t, e.p, e.pat, e.d = 1)), st)
      [] e.op = "older" -> Judge(e.ok = 1 /\ IF ~In(st.t, e.p) \/ ~In(st.t, e.q) \/ e.p = e.q THEN e.r = 0
                                 ELSE IF e.p \in DOMAIN st.w /\ e.q \in DOMAIN st.w /\ st.w[e.p] # st.w[e.q] /\ e.timed = 1 THEN e.r = (IF st.w[e.p] < st.w[e.q] THEN 1 ELSE 0) ELSE TRUE, st)
      [] e.op = "eopen" -> LET x == e.x + 1 ok == IsDir(st.t, e.p) IN
            Judge(e.ok = 1 /\ e.r = (IF ok THEN 1 ELSE 0),
                  [st EXCEPT !.ex[x] = IF ok THEN [NoEx EXCEPT !.o = TRUE, !.p = e.p, !.pat = e.pat, !.must = Kids(st.t, e.p), !.may = Kids(st.t, e.p)] ELSE NoEx])
      [] e.op = "eclose" -> Judge(e.ok = 1, [st EXCEPT !.ex[e.x + 1] = NoEx])
      [] e.op = "enext" -> LET x == st.ex[e.x + 1] IN
            IF e.ok # 1 THEN Judge(FALSE, st)
            ELSE IF e.r = 0 THEN Judge(x.o => \A n \in x.must : (Matches(x.pat, n) /\ ~(Hidden(n) /\ x.pat # <<>> /\ x.pat # <<Star>>)) => n \in x.seen, [st EXCEPT !.ex[e.x + 1].end = TRUE])
            ELSE LET q == Append(x.p, e.n) IN
                 Judge(/\ x.o /\ ~x.end /\ e.n \notin x.seen /\ (e.n \in x.may \/ e.n \in {<<Dot>>, <<Dot, Dot>>}) /\ Matches(x.pat, e.n)
                       /\ e.fp = 1
                       /\ (e.n \in x.may => (e.h = 1) = Hidden(e.n))
                       /\ ((e.n \in {<<Dot>>, <<Dot, Dot>>} /\ IsDir(st.t, x.p)) => e.d = 1)
                       \* an entry that has gone in the meantime has no kind and no size
                       /\ ((~In(st.t, q) /\ e.n \notin {<<Dot>>, <<Dot, Dot>>}) => (e.d = 0 /\ e.z = 0))
                       /\ (In(st.t, q) => (e.d = 1) = st.t[q].d /\ (~st.t[q].d => e.z = Len(st.t[q].v))),
                       [st EXCEPT !.ex[e.x + 1].seen = @ \cup {e.n}])
      [] e.op = "path" -> Judge(/\ e.ok = 1 /\ e.dz = Directorize(e.s) /\ (e.ab = 1) = Absolute(e.s) /\ e.xt = Ext(e.s) /\ e.nx = NoExt(e.s) /\ e.sx = <<NoExt(e.s), Ext(e.s)>>
                                /\ (PathLike(e.s) => e.bn = Basename(e.s) /\ Append(Strip(e.dn, Slash), Slash) = Dirname(e.s) /\ (e.dn # <<>> => e.dn[Len(e.dn)] = Slash)), st)
      [] OTHER -> Judge(FALSE, st)
Init == pos = 0 /\ s = Start /\ bad = FALSE
Next == /\ pos < NLines
        /\ LET e == Trace[pos + 1] new == e.op = "begin" j == IF bad /\ ~new THEN [ok |-> TRUE, s |-> s] ELSE Next1(s, e) IN
           /\ IF j.ok THEN TRUE ELSE Reject(pos + 1)
           /\ s' = j.s /\ bad' = (IF new THEN FALSE ELSE bad \/ ~j.ok)
        /\ pos' = pos + 1 /\ IF pos + 1 = NLines THEN Done(NLines) ELSE TRUE
TraceSpec == Init /\ [][Next]_<<pos, s, bad>>
===============================================================================
