----------------------------- MODULE TraceGcd -----------------------------
EXTENDS CLPolyGcd, TraceBase

Ok == Line.s = "ok"
In(ts) == PFromTerms(Line.R, ts)
F == In(Line.f)
G == In(Line.g)
\* an observed polynomial: in stored form for the order of the call
Out(ts) == PVal(ts)
OutOK(ts) == Canonical(Line.R, Line.o, ts)
Triple == OutOK(Line.r[1]) /\ OutOK(Line.r[2]) /\ OutOK(Line.r[3])
D(p) == LET q == p IN IF PIsZero(q) THEN <<>> ELSE [i \in 1..(PDegIn(q, 1) + 1) |-> IF <<i - 1>> \in DOMAIN q THEN q[<<i - 1>>] ELSE BZero]

TSetup == IsEvent("setup") /\ Ok
TGcd == /\ IsEvent("gcd") /\ Ok /\ OutOK(Line.r)
        /\ IF Line.R.k = "Z" THEN GcdOK(Line.nv, F, G, Out(Line.r))
           ELSE D(Out(Line.r)) = MpGcd(D(F), D(G), Line.R.p)
TXgcd == /\ IsEvent("xgcd") /\ Ok /\ Triple
         /\ IF Line.R.k = "Z" THEN XgcdOK(Line.nv, 1..Line.nv, F, G, Out(Line.r[1]), Out(Line.r[2]), Out(Line.r[3]))
            ELSE XgcdPOK(D(F), D(G), D(Out(Line.r[1])), D(Out(Line.r[2])), D(Out(Line.r[3])), Line.R.p)
TCont == IsEvent("cont") /\ Ok /\ OutOK(Line.r) /\ ContOK(Line.o, Line.nv, F, Out(Line.r))
TPp == IsEvent("pp") /\ Ok /\ OutOK(Line.r) /\ PpOK(Line.o, Line.nv, F, Out(Line.r))
TSqf == IsEvent("sqf") /\ Ok /\ Line.r = (~ PIsZero(F) /\ SquarefreeQ(Line.nv, F))
TSqff == /\ IsEvent("sqff") /\ Ok /\ \A i \in DOMAIN Line.r : OutOK(Line.r[i][1])
         /\ SqffOK(Line.nv, F, [i \in DOMAIN Line.r |-> <<Out(Line.r[i][1]), Line.r[i][2]>>])
TSqfb == /\ IsEvent("sqfb") /\ Ok /\ \A i \in DOMAIN Line.r[1] : OutOK(Line.r[1][i])
         /\ SqfbOK(Line.nv, [i \in DOMAIN Line.fs |-> In(Line.fs[i])], [i \in DOMAIN Line.r[1] |-> Out(Line.r[1][i])], Line.r[2])
TReset == IsEvent("case")

TraceInit == l = 1
TraceNext == TReset \/ TSetup \/ TGcd \/ TXgcd \/ TCont \/ TPp \/ TSqf \/ TSqff \/ TSqfb
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
