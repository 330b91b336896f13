----------------------------- MODULE TraceRoots -----------------------------
EXTENDS CLPolyRoots, TraceBase

Ok == Line.s = "ok"
\* observed polynomial (terms in strictly decreasing degree, no zero coefficient) -> dense
DenseOK(ts) == \A i \in DOMAIN ts : BWellFormed(ts[i][2]) /\ ts[i][2] # BZero /\ (i > 1 => ts[i - 1][1][1] > ts[i][1][1])
Dn(ts) == IF ts = <<>> THEN <<>> ELSE [d \in 1..(Max({ts[i][1][1] : i \in DOMAIN ts}) + 1) |->
             FoldLeft(LAMBDA a, t : IF t[1][1] = d - 1 THEN BAdd(a, t[2]) ELSE a, BZero, ts)]
F(ts) == UStrip(Dn(ts))
Iv(x) == QWellFormed(x[1]) /\ QWellFormed(x[2])
Obj(o) == IF o.t = "num" THEN [t |-> "num", p |-> F(o.p), a |-> o.a, b |-> o.b] ELSE o
\* every object the call touched denotes what the specification says
Seen(st) == \A i \in DOMAIN st : /\ st[i][1] \in DOMAIN reg'
                                 /\ st[i][2].t = "num" => DenseOK(st[i][2].p) /\ Iv(<<st[i][2].a, st[i][2].b>>)
                                 /\ ObjOK(Obj(st[i][2]), reg'[st[i][1]])
Same == UNCHANGED reg

TCase == IsEvent("case") /\ reg' = <<>>
TSetup == IsEvent("setup") /\ Ok /\ Same
Fs == [i \in DOMAIN Line.fs |-> F(Line.fs[i])]
Rs == [i \in DOMAIN Line.r.v |-> << F(Line.r.v[i][1]), Line.r.v[i][2], Line.r.v[i][3], Line.r.v[i][4] >>]
TRealroot == /\ IsEvent("realroot") /\ Ok
             /\ \A i \in DOMAIN Line.r.v : DenseOK(Line.r.v[i][1]) /\ Iv(<<Line.r.v[i][2], Line.r.v[i][3]>>)
             /\ RealRootOK(Fs, Rs)
             \* the objects are named prefix1, prefix2, ...
             /\ reg' = LET new == {<<Line.d, i>> : i \in DOMAIN Rs} IN
                       [k \in DOMAIN reg \cup new |-> IF k \in new THEN Num(USf(Rs[k[2]][1]), Rs[k[2]][2], Rs[k[2]][3]) ELSE reg[k]]
TManyVars == IsEvent("manyvars") /\ Line.s = "exc" /\ Same
TUsp == IsEvent("usp") /\ Ok /\ (\A i \in DOMAIN Line.r : Iv(Line.r[i])) /\ UspenskyOK(F(Line.f), Line.r) /\ Same
TUspl == IsEvent("uspl") /\ Ok /\ (\A i \in DOMAIN Line.r[1] : Iv(Line.r[1][i])) /\ UspenskyListOK(Fs, Line.r[1], Line.r[2]) /\ Same
TBound == IsEvent("bound") /\ Ok /\ BWellFormed(Line.r) /\ BoundOK(F(Line.f), Line.r) /\ Same
TSigns == IsEvent("signs") /\ Ok /\ Line.r = Variations([i \in DOMAIN F(Line.f) |-> F(Line.f)[i][1]]) /\ Same
TXf == IsEvent("xf") /\ Ok /\ DenseOK(Line.r) /\ F(Line.r) = TransformOf(Line.k, F(Line.f), Line.B, Line.a, Line.b) /\ Same

TNew == IsEvent("new") /\ Ok /\ Bind(Line.d, Num(F(Line.f), Line.a, Line.b)) /\ Seen(Line.r.st)
TInf == IsEvent("inf") /\ Ok /\ Bind(Line.d, Inf(Line.k)) /\ Seen(Line.r.st)
TCopy == IsEvent("copy") /\ Ok /\ Bind(Line.d, reg[Line.x]) /\ Seen(Line.r.st)
TCmp == IsEvent("cmp") /\ Ok /\ Line.r.v = Answer(Line.k, Order(reg[Line.x], reg[Line.y])) /\ Same /\ Seen(Line.r.st)
\* the rational is reported by the driver (it may be an endpoint of some object's current interval)
TCmpQ == IsEvent("cmpq") /\ Ok /\ (Line.q # <<>> => Line.r.q = Line.q) /\ QWellFormed(Line.r.q)
         /\ Line.r.v = Answer(Line.k, OrderQ(reg[Line.x], Line.r.q)) /\ Same /\ Seen(Line.r.st)
TShrink == IsEvent("shrink") /\ Ok /\ Same /\ Seen(Line.r.st)
TState == IsEvent("state") /\ Ok /\ Same /\ Seen(Line.r.st)

TraceInit == l = 1 /\ reg = <<>>
TraceNext == TCase \/ TSetup \/ TRealroot \/ TManyVars \/ TUsp \/ TUspl \/ TBound \/ TSigns \/ TXf
             \/ TNew \/ TInf \/ TCopy \/ TCmp \/ TCmpQ \/ TShrink \/ TState
TraceSpec == TraceInit /\ [][TraceNext]_<<l, reg>>
=============================================================================
