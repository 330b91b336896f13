----------------------------- MODULE TracePoly -----------------------------
EXTENDS CLPolyPoly, TraceBase

Ok == Line.s = "ok"
\* every object holds what the specification says; unreported objects are unchanged
Shown(n) == CHOOSE i \in DOMAIN Line.r.st : Line.r.st[i][1] = n
Observed == LET st == Line.r.st
                names == {st[i][1] : i \in DOMAIN st}
            IN  /\ names \subseteq DOMAIN reg'
                /\ \A n \in DOMAIN reg' :
                      IF n \in names THEN Stores(reg'[n].R, reg'[n].o, st[Shown(n)][2], reg'[n].p)
                      ELSE n \in DOMAIN reg /\ reg'[n].p = reg[n].p
\* the value an object is observed to hold (for under-determined results)
Seen(d) == LET st == Line.r.st IN
           IF \E i \in DOMAIN st : st[i][1] = d THEN PVal(st[Shown(d)][2]) ELSE P(d)
Query == UNCHANGED reg /\ Ok /\ Observed

TReset == IsEvent("case") /\ reg' = <<>>
TSetup == IsEvent("setup") /\ Ok /\ UNCHANGED reg
TNew == /\ IsEvent("new") /\ Ok
        /\ Store(Line.d, Obj(Line.R, Line.o, Line.nv, PFromTerms(Line.R, Line.ts))) /\ Observed
TSet == IsEvent("set") /\ Ok /\ Store(Line.x, With(Line.x, PFromTerms(reg[Line.x].R, Line.ts))) /\ Observed
TBin == /\ IsEvent("pbin") /\ Ok /\ SameType(Line.x, Line.y)
        /\ Store(Line.d, With(Line.x, PBinary(Line.k, reg[Line.x].R, P(Line.x), P(Line.y)))) /\ Observed
TUn == /\ IsEvent("pun") /\ Ok
       /\ Store(Line.d, With(Line.x, PUnary(Line.k, reg[Line.x].R, reg[Line.x].nv, P(Line.x), Line.n, Line.c))) /\ Observed
TMono == /\ IsEvent("pmono") /\ Ok
         /\ Store(Line.d, With(Line.x, PMonoOp(Line.k, reg[Line.x].R, P(Line.x), Line.m))) /\ Observed
TCopy == IsEvent("copy") /\ Ok /\ Store(Line.d, reg[Line.x]) /\ Observed
TMove == /\ IsEvent("move") /\ Ok
         /\ reg' = (IF Line.d = Line.x THEN reg ELSE Drop(Put(reg, Line.d, reg[Line.x]), Line.x)) /\ Observed
TSwap == IsEvent("swap") /\ Ok /\ reg' = [reg EXCEPT ![Line.x] = reg[Line.y], ![Line.y] = reg[Line.x]] /\ Observed
TDrop == IsEvent("drop") /\ Ok /\ reg' = Drop(reg, Line.x) /\ Observed
TCmp == /\ IsEvent("pcmp") /\ Query
        /\ LET v == Line.r.v[1]  e == (P(Line.x) = P(Line.y))
           IN  /\ v # 9 /\ (v = 0) = e
               /\ (e => Line.r.v[2])
               /\ (reg[Line.x].R.k # "P" => (v = 1) = PGreater(reg[Line.x].R, reg[Line.x].o, P(Line.x), P(Line.y))) = TRUE
\* ---- division ----
TQuo == /\ IsEvent("pquot") /\ Ok /\ ~ PIsZero(P(Line.y))
        /\ LET R == reg[Line.x].R  f == P(Line.x)  g == P(Line.y)  q == Seen(Line.d)
           IN  /\ Reduced(R, reg[Line.x].o, PSub(R, f, PMul(R, q, g)), g)
               /\ Store(Line.d, With(Line.x, q))
        /\ Observed
TDivQR == /\ IsEvent("pdivqr") /\ Ok /\ ~ PIsZero(P(Line.y))
          /\ LET R == reg[Line.x].R  f == P(Line.x)  g == P(Line.y)  q == Seen(Line.d)  r == Seen(Line.e)
             IN  /\ DivOK(R, reg[Line.x].o, f, g, q, r)
                 /\ reg' = Put(Put(reg, Line.d, With(Line.x, q)), Line.e, With(Line.x, r))
          /\ Observed
TRem == /\ IsEvent("prem1") /\ Ok /\ ~ PIsZero(P(Line.y))
        /\ LET R == reg[Line.x].R  f == P(Line.x)  g == P(Line.y)  r == Seen(Line.d)
           IN  /\ Reduced(R, reg[Line.x].o, r, g)
               /\ PDivides(R, reg[Line.x].nv, g, PSub(R, f, r))
               /\ Store(Line.d, With(Line.x, r))
        /\ Observed
\* division by zero throws; what the destinations of the two-result form hold is not specified
TDiv0 == /\ Line.op \in {"pquot", "pdivqr", "prem1", "pprem", "ppquo"} /\ IsEvent(Line.op)
         /\ Line.s = "exc" /\ PIsZero(P(Line.y))
         /\ reg' = IF Line.op = "pdivqr" THEN Drop(Drop(reg, Line.d), Line.e) ELSE reg
\* pseudo-division by y in variable v, full (n = 1) or least power of the leading coefficient.
\* A divisor free of v divides with remainder 0; its quotient is scaled by lc^deg_v(x).
PremValue == LET R == reg[Line.x].R  nv == reg[Line.x].nv  g == P(Line.x)  f == P(Line.y)
             IN  IF PDegIn(f, Line.v) = 0 THEN [q |-> PMul(R, g, PPow(R, nv, f, PDegIn(g, Line.v))), r |-> PZero, k |-> 0]
                 ELSE PseudoFull(R, nv, g, f, Line.v)
\* z is w divided by a power of the leading coefficient, at most the k-th
PartOf(R, nv, z, w, lc, k) == \E j \in 0..k : PMul(R, z, PPow(R, nv, lc, j)) = w
TPrem == /\ IsEvent("pprem") /\ Ok /\ ~ PIsZero(P(Line.y))
         /\ LET R == reg[Line.x].R  nv == reg[Line.x].nv  w == PremValue
                r == IF Line.n = 1 THEN w.r ELSE Seen(Line.d)
            IN  /\ Line.n # 1 => PartOf(R, nv, r, w.r, PLc(P(Line.y), Line.v), w.k)
                /\ Store(Line.d, With(Line.x, r))
         /\ Observed
TPquo == /\ IsEvent("ppquo") /\ Ok /\ ~ PIsZero(P(Line.y))
         /\ LET R == reg[Line.x].R  nv == reg[Line.x].nv  w == PremValue  lc == PLc(P(Line.y), Line.v)
                q == IF Line.n = 1 THEN w.q ELSE Seen(Line.d)
                r == IF Line.n = 1 THEN w.r ELSE Seen(Line.e)
            IN  /\ Line.n # 1 => \E j \in 0..w.k : /\ PMul(R, r, PPow(R, nv, lc, j)) = w.r
                                                   /\ PMul(R, q, PPow(R, nv, lc, j)) = w.q
                /\ reg' = IF Line.e = "" THEN Put(reg, Line.d, With(Line.x, q))
                          ELSE Put(Put(reg, Line.d, With(Line.x, q)), Line.e, With(Line.x, r))
         /\ Observed
\* ---- degrees, coefficients, calculus, evaluation ----
TQuery == IsEvent("pquery") /\ Query /\ QueryOK(Line.r.v, Line.x)
TQVar == IsEvent("pqvar") /\ Query /\ Line.r.v = PDegIn(P(Line.x), Line.v)
TFirst == /\ IsEvent("pfirst") /\ Query
          /\ LET p == P(Line.x)  nv == reg[Line.x].nv  o == reg[Line.x].o
             IN  Line.r.v = IF PIsConst(p) THEN <<0, 0, 0, 0>>
                            ELSE <<FirstVar(o, nv, p), PDegIn(p, FirstVar(o, nv, p)), LastVar(o, nv, p), PDegIn(p, LastVar(o, nv, p))>>
StoresAll(x, tss, ps) == /\ Len(tss) = Len(ps)
                         /\ \A i \in DOMAIN tss : Stores(reg[x].R, reg[x].o, tss[i], ps[i])
TCoeff == /\ IsEvent("pcoeff") /\ Query
          /\ StoresAll(Line.x, Line.r.v, [i \in 1..(PDegIn(P(Line.x), Line.v) + 1) |-> PCoeff(P(Line.x), Line.v, i - 1)])
TUpDeg == /\ IsEvent("pupdeg") /\ Query
          /\ Line.r.v[1] = PDegIn(P(Line.x), Line.v) /\ Line.r.v[2] = PDegIn(P(Line.x), Line.v)
          /\ Stores(reg[Line.x].R, reg[Line.x].o, Line.r.v[3], PLc(P(Line.x), Line.v))
TLc == IsEvent("plc") /\ Ok /\ Store(Line.d, With(Line.x, PLc(P(Line.x), Line.v))) /\ Observed
TLc1 == /\ IsEvent("plc1") /\ Ok /\ ~ PIsConst(P(Line.x))
        /\ Store(Line.d, With(Line.x, PLc(P(Line.x), FirstVar(reg[Line.x].o, reg[Line.x].nv, P(Line.x))))) /\ Observed
TDeriv == IsEvent("pderiv") /\ Ok /\ Store(Line.d, With(Line.x, PDeriv(reg[Line.x].R, P(Line.x), Line.v))) /\ Observed
TDeriv1 == /\ IsEvent("pderiv1") /\ Ok
           /\ Store(Line.d, With(Line.x, IF PIsConst(P(Line.x)) THEN PZero
                       ELSE PDeriv(reg[Line.x].R, P(Line.x), FirstVar(reg[Line.x].o, reg[Line.x].nv, P(Line.x))))) /\ Observed
\* with exponents scaled by S (the object holds p(x^S)): v * d/dv, and substitution
TEuler == IsEvent("peuler") /\ Ok /\ Store(Line.d, With(Line.x, PEuler(reg[Line.x].R, P(Line.x), Line.v, Line.S))) /\ Observed
TEuler1 == /\ IsEvent("peuler1") /\ Ok
           /\ Store(Line.d, With(Line.x, IF PIsConst(P(Line.x)) THEN PZero
                       ELSE PEuler(reg[Line.x].R, P(Line.x), FirstVar(reg[Line.x].o, reg[Line.x].nv, P(Line.x)), Line.S))) /\ Observed
Even(S) == BRem(S, BInt(2)) = BZero
\* c^S  for the c where that can be written down
Raised(R, c, S) == IF R.k = "P" THEN BPowMod(c, S, R.p) ELSE IF c = CInt(R, BInt(-1)) /\ Even(S) THEN COne(R) ELSE c
Values(R) == IF "S" \in DOMAIN Line THEN [i \in DOMAIN Line.vals |-> <<Line.vals[i][1], Raised(R, Line.vals[i][2], Line.S)>>] ELSE Line.vals
TAssign == IsEvent("passign") /\ Ok /\ Store(Line.d, With(Line.x, PSubstAll(reg[Line.x].R, P(Line.x), Values(reg[Line.x].R)))) /\ Observed
TAssignQ == /\ IsEvent("passignq") /\ Ok
            /\ Store(Line.d, Obj(RQ, reg[Line.x].o, reg[Line.x].nv, PSubstAll(RQ, PMapQ(P(Line.x)), Line.vals))) /\ Observed
TValue == /\ IsEvent("pvalue") /\ Query
          /\ Line.r.v = PEval(reg[Line.x].R, 1, P(Line.x), <<IF "S" \in DOMAIN Line THEN Raised(reg[Line.x].R, Line.c, Line.S) ELSE Line.c>>)
TValueQ == IsEvent("pvalueq") /\ Query /\ Line.r.v = PEval(RQ, 1, PMapQ(P(Line.x)), <<Line.c>>)
TCont == /\ IsEvent("pcont") /\ Query
         /\ ~ PIsZero(P(Line.x)) => BAbs(Line.r.v) = FoldSet(LAMBDA m, a : BGcd(a, P(Line.x)[m]), BZero, DOMAIN P(Line.x))
\* ---- conversions ----
TConv == /\ IsEvent("pconv") /\ Ok
         /\ Store(Line.d, Obj(Line.R, Line.o, Line.nv, Image(reg[Line.x].R, Line.R, P(Line.x)))) /\ Observed
TToU == /\ IsEvent("ptou") /\ Ok /\ Cardinality(PVars(reg[Line.x].nv, P(Line.x))) <= 1
        /\ Store(Line.d, Obj(Line.R, Line.o, 1, ToU(Image(reg[Line.x].R, Line.R, P(Line.x))))) /\ Observed
TFromU == IsEvent("pfromu") /\ Ok /\ Store(Line.x, With(Line.x, FromU(P(Line.y), reg[Line.x].nv, Line.v))) /\ Observed
\* ---- text ----
TText == /\ IsEvent("ptext") /\ Query
         /\ \A i \in DOMAIN Line.r.v : TextDenotes(reg[Line.x].R, reg[Line.x].nv, Line.r.v[i]) = <<TRUE, P(Line.x)>>
\* a vector prints its elements in order, a set prints each of its elements once
TTextL == /\ IsEvent("ptextl") /\ Query
          /\ LET x == Line.xs[1]
                 parts == TextParts(reg[x].R, reg[x].nv, Line.r.v[1], "[", "]")
             IN  parts = [i \in DOMAIN Line.xs |-> <<TRUE, P(Line.xs[i])>>]
TTextS == /\ IsEvent("ptexts") /\ Query
          /\ LET x == Line.xs[1]
                 parts == TextParts(reg[x].R, reg[x].nv, Line.r.v[1], "{", "}")
                 want == {<<TRUE, P(Line.xs[i])>> : i \in DOMAIN Line.xs}
             IN  ToSet(parts) = want /\ Len(parts) = Cardinality(want)

TraceInit == reg = <<>> /\ l = 1
TraceNext == \/ TReset \/ TSetup \/ TNew \/ TSet \/ TBin \/ TUn \/ TMono \/ TCopy \/ TMove \/ TSwap \/ TDrop \/ TCmp
             \/ TQuo \/ TDivQR \/ TRem \/ TDiv0 \/ TPrem \/ TPquo \/ TQuery \/ TQVar \/ TFirst \/ TCoeff \/ TUpDeg
             \/ TLc \/ TLc1 \/ TDeriv \/ TDeriv1 \/ TEuler \/ TEuler1 \/ TAssign \/ TAssignQ \/ TValue \/ TValueQ \/ TCont
             \/ TConv \/ TToU \/ TFromU \/ TText \/ TTextL \/ TTextS
TraceSpec == TraceInit /\ [][TraceNext]_<<reg, l>>
=============================================================================
