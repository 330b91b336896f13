----------------------------- MODULE TraceDense -----------------------------
EXTENDS CLPolyDense, TraceBase
VARIABLE D        \* the registers

Ok == Line.s = "ok"
X == D[Line.x]
Y == D[Line.y]
Put(r, v) == D' = [D EXCEPT ![r] = v]
Shown(v) == Line.r = <<v.p, v.c>>
Same == UNCHANGED D

TCase == IsEvent("case") /\ D' = DEmpty
TNone == IsEvent("none") /\ Ok /\ Same
TDef == IsEvent("def") /\ Ok /\ Put(Line.d, Nothing)
TNew == IsEvent("new") /\ Ok /\ LET v == DVal(Line.p, <<>>) IN Put(Line.d, v) /\ Shown(v)
TSet == IsEvent("set") /\ Ok /\ LET v == DVal(Line.p, MpStrip(Line.c)) IN Put(Line.d, v) /\ Shown(v)
TCopy == (IsEvent("copy") \/ IsEvent("dup")) /\ Ok /\ Put(Line.d, X) /\ Shown(X)
TAdd == IsEvent("add") /\ Ok /\ X.p = Y.p /\ LET v == DAdd(X, Y) IN Put(Line.d, v) /\ Shown(v)
TSub == IsEvent("sub") /\ Ok /\ X.p = Y.p /\ LET v == DSub(X, Y) IN Put(Line.d, v) /\ Shown(v)
TMul == IsEvent("mul") /\ Ok /\ X.p = Y.p /\ LET v == DMul(X, Y) IN Put(Line.d, v) /\ Shown(v)
TScale == IsEvent("scale") /\ Ok /\ LET v == DScale(D[Line.d], Line.k) IN Put(Line.d, v) /\ Shown(v)
TGcd == /\ IsEvent("gcd") /\ Ok /\ X.p = Y.p
        /\ DShape(Line.r) /\ DIsGcd(DObs(Line.r), X, Y)
        /\ Put(Line.d, DObs(Line.r))
TDivRem == /\ IsEvent("divrem") /\ Ok /\ X.p = Y.p /\ Line.q # Line.d
           /\ LET v == DDivRem(X, Y)
              IN  /\ D' = [D EXCEPT ![Line.q] = v[1], ![Line.d] = v[2]]
                  /\ Line.r = <<<<v[1].p, v[1].c>>, <<v[2].p, v[2].c>>>>
TSparse == IsEvent("sparse") /\ Ok /\ Same /\ Line.r = DSparse(X)
TNmul == IsEvent("nmul") /\ Ok /\ Same /\ Line.r = BMod(BMul(Line.a, Line.b), X.p)
TNinv == IsEvent("ninv") /\ Ok /\ Same /\ Line.r = PInv(Line.a, X.p)
\* nothing but the named results changed
TAll == IsEvent("all") /\ Ok /\ Same /\ \A r \in Regs : Line.r[r + 1] = <<D[r].p, D[r].c>>

TraceInit == l = 1 /\ D = DEmpty
TraceNext == TCase \/ TNone \/ TDef \/ TNew \/ TSet \/ TCopy \/ TAdd \/ TSub \/ TMul \/ TScale \/ TGcd \/ TDivRem \/ TSparse \/ TNmul \/ TNinv \/ TAll
TraceSpec == TraceInit /\ [][TraceNext]_<<l, D>>
=============================================================================
