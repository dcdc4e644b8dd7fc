------------------------------ MODULE StrTrace ------------------------------
EXTENDS Str, TraceLib
\* one result per string, same shape
Each(e, F(_)) == e.ok = 1 /\ Len(e.r) = Len(e.v) /\ e.rd = e.d /\ \A k \in 1..Len(e.v) : e.r[k] = F(e.v[k])
B(x) == IF x THEN 1 ELSE 0
Is(e, r) == e.ok = 1 /\ e.r = r /\ e.rd = <<Len(r)>>
Word(e) == LET w == Words(e.v[1], Rng(e.p)) n == Len(w) IN
    IF e.n >= 0 THEN (IF e.n < n THEN <<w[e.n + 1]>> ELSE <<>>) ELSE (IF -e.n <= n THEN <<w[n + e.n + 1]>> ELSE <<>>)
Slices(s, ms) == [k \in 1..Len(ms) |-> SubSeq(s, ms[k][1] + 1, ms[k][2])]
\* text between the matches
Between(s, ms) == [k \in 1..(Len(ms) + 1) |->
    SubSeq(s, (IF k = 1 THEN 0 ELSE ms[k - 1][2]) + 1, IF k > Len(ms) THEN Len(s) ELSE ms[k][1])]
Accept(e) ==
    CASE e.op = "length" -> Each(e, LAMBDA s : Len(s))
      [] e.op = "empty" -> Each(e, LAMBDA s : B(Len(s) = 0))
      [] e.op = "kfirst" -> Each(e, LAMBDA s : Take(s, e.n))
      [] e.op = "klast" -> Each(e, LAMBDA s : TakeEnd(s, e.n))
      [] e.op = "dist" -> Each(e, LAMBDA s : Distance(s, e.p))
      [] e.op = "find" -> Each(e, LAMBDA s : FindFrom(s, e.p, 0))
      [] e.op = "replace" -> Each(e, LAMBDA s : Replace(s, e.p, e.q))
      [] e.op = "trim" -> Each(e, LAMBDA s : Trim(s, Rng(e.p)))
      [] e.op = "begins" -> Each(e, LAMBDA s : B(Begins(s, e.p)))
      [] e.op = "ends" -> Each(e, LAMBDA s : B(EndsW(s, e.p)))
      [] e.op = "ebn" -> Each(e, LAMBDA s : Drop(s, e.n))
      [] e.op = "een" -> Each(e, LAMBDA s : DropEnd(s, e.n))
      [] e.op = "ebp" -> IF \A k \in 1..Len(e.v) : Begins(e.v[k], e.p) THEN Each(e, LAMBDA s : Drop(s, Len(e.p))) ELSE e.ok = 0
      [] e.op = "eep" -> IF \A k \in 1..Len(e.v) : EndsW(e.v[k], e.p) THEN Each(e, LAMBDA s : DropEnd(s, Len(e.p))) ELSE e.ok = 0
      [] e.op = "upper" -> Each(e, LAMBDA s : [k \in 1..Len(s) |-> Upper(s[k])])
      [] e.op = "lower" -> Each(e, LAMBDA s : [k \in 1..Len(s) |-> Lower(s[k])])
      [] e.op = "left" -> Each(e, LAMBDA s : AlignL(s, e.n, e.p[1]))
      [] e.op = "right" -> Each(e, LAMBDA s : AlignR(s, e.n, e.p[1]))
      [] e.op = "center" -> Each(e, LAMBDA s : AlignC(s, e.n, e.p[1]))
      [] e.op = "split" -> Is(e, Split(e.v[1], e.p))
      [] e.op = "splitany" -> Is(e, Words(e.v[1], Rng(e.p))) \/ (e.v[1] = <<>> /\ Is(e, <<e.v[1]>>))
      [] e.op = "cut" -> Is(e, Cut(e.v[1], e.n))
      [] e.op = "wrap" -> Is(e, Wrap(e.v[1], e.n, e.p, e.ell = 1))
      [] e.op = "collapse" -> e.ok = 1 /\ e.r = <<Join(e.v, e.p)>>
      [] e.op = "word" -> LET w == Word(e) IN IF w = <<>> THEN e.ok = 0 ELSE e.ok = 1 /\ e.r = w
      [] e.op = "block" -> LET b == Blocks(e.v[1], e.p, e.q) IN
            IF ~b.ok THEN e.ok = 0
            ELSE e.ok = 1 /\ e.seen = b.b /\ e.rep = [k \in 1..Len(b.b) |-> e.rep[k]] /\ e.r = <<Weave(b.t, e.rep)>>
      [] e.op = "blocks" -> LET b == MBlocks(e.v[1], e.p, e.sep, e.q) IN
            IF ~b.ok THEN e.ok = 0
            ELSE e.ok = 1 /\ e.seen = b.b /\ Len(e.rep) = Len(b.b) /\ e.r = <<Weave(b.t, e.rep)>>
      [] e.op = "rematch" -> Each(e, LAMBDA s : B(Matches(s, e.re)))
      [] e.op = "rematch2" -> e.ok = 1 /\ e.rd = e.d /\ Len(e.r) = Len(e.rl) /\ \A k \in 1..Len(e.rl) : e.r[k] = B(Matches(e.s, e.rl[k]))
      [] e.op = "reextract" -> e.ok = 1 /\ (MinLen(e.re) > 0 =>
            LET ms == AllMatches(e.s, e.re, 0) nc == NCap(e.re) IN
            IF nc = 0 THEN e.r = <<>>
            ELSE /\ (ms # <<>> => e.rd = <<Len(ms), nc>>) /\ Len(e.r) = Len(ms) * nc
                 /\ \A k \in 1..Len(ms) : Capt(e.s, e.re, 1, ms[k][1], ms[k][2], SubSeq(e.r, (k - 1) * nc + 1, k * nc)))
      [] e.op = "rereplace" -> e.ok = 1 /\ (MinLen(e.re) > 0 =>
            LET ms == AllMatches(e.s, e.re, 0) nc == NCap(e.re) IN
            /\ Len(e.seen) = Len(ms) /\ \A k \in 1..Len(ms) : Len(e.seen[k]) = nc /\ Capt(e.s, e.re, 1, ms[k][1], ms[k][2], e.seen[k])
            /\ e.r = <<Weave(Between(e.s, ms), e.rep)>>)
      [] e.op = "rebad" -> e.ok = 0
      [] OTHER -> FALSE
TraceSpec == Stateless(Accept)
=============================================================================
