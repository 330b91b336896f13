---------------------------- MODULE TraceFactor ----------------------------
EXTENDS CLPolyFactor, TraceBase

Ok == Line.s = "ok"
F == PFromTerms(Line.R, Line.f)
D(q) == IF PIsZero(q) THEN <<>> ELSE [i \in 1..(PDegIn(q, 1) + 1) |-> IF <<i - 1>> \in DOMAIN q THEN q[<<i - 1>>] ELSE BZero]
Ghost == [i \in DOMAIN Line.gh |-> [f |-> PFromTerms(RZ, Line.gh[i][1]), e |-> Line.gh[i][2], c |-> Line.gh[i][3]]]
Answer == [i \in DOMAIN Line.r[2] |-> <<PVal(Line.r[2][i][1]), Line.r[2][i][2]>>]

TSetup == IsEvent("setup") /\ Ok
TFac == /\ IsEvent("fac") /\ Ok
        /\ CWellFormed(Line.R, Line.r[1])
        /\ \A i \in DOMAIN Line.r[2] : Canonical(Line.R, Line.o, Line.r[2][i][1])
        /\ Assert(GhostOK(Line.R, Line.nv, F, Line.c, Ghost), <<"bad ghost factorization", l>>)
        /\ FactorOK(Line.R, Line.nv, F, Ghost, Line.r[1], Answer)
TFacP == /\ IsEvent("facp") /\ Ok
         /\ CWellFormed(Line.R, Line.r[1])
         /\ \A i \in DOMAIN Line.r[2] : Canonical(Line.R, Line.o, Line.r[2][i][1])
         /\ FactorPOK(D(F), Line.R.p, Line.r[1], [i \in DOMAIN Answer |-> <<D(Answer[i][1]), Answer[i][2]>>])
\* x^j f(x^q) with q a power of the characteristic, j < q and, unless j = 0, f(0) # 0: f(x^q) = f(x)^q, so the
\* factors are those of f with q times their multiplicity, and x with multiplicity j
TFacPS == /\ IsEvent("facps") /\ Ok
          /\ CWellFormed(Line.R, Line.r[1])
          /\ \A i \in DOMAIN Line.r[2] : Canonical(Line.R, Line.o, Line.r[2][i][1])
          /\ LET one(i) == Line.r[2][i][1] = <<<<<<1>>, BOne>>>> /\ Line.r[2][i][2] = 0
                 xs == {i \in DOMAIN Line.r[2] : Line.r[2][i][3] # 0}
                 rest == SelectSeq([i \in DOMAIN Line.r[2] |-> i], LAMBDA i : i \notin xs)
             IN  /\ Cardinality(xs) = (IF Line.j = 0 THEN 0 ELSE 1)
                 /\ \A i \in xs : one(i) /\ Line.r[2][i][3] = Line.j
                 /\ FactorPOK(D(F), Line.R.p, Line.r[1], [i \in DOMAIN rest |-> <<D(Answer[rest[i]][1]), Answer[rest[i]][2]>>])
TReset == IsEvent("case")

TraceInit == l = 1
TraceNext == TReset \/ TSetup \/ TFac \/ TFacP \/ TFacPS
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
