--------------------------- MODULE TraceGroebner ---------------------------
EXTENDS CLPolyGroebner, TraceBase
VARIABLE I        \* the ideal the history is about: its generators and its certified reduced basis

Ok == Line.s = "ok"
P(ts) == PFromTerms(Line.R, ts)
Ps(s) == [i \in DOMAIN s |-> P(s[i])]
OutOK(ts) == Canonical(Line.R, Line.o, ts)
Outs(s) == [i \in DOMAIN s |-> PVal(s[i])]
Q(s) == [i \in DOMAIN s |-> PFromTerms(Fld(Line.R), s[i])]
K == Fld(Line.R)
Same == UNCHANGED I
\* the list of generators handed to this call generates the ideal
Gens == LET Gs == Ps(Line.gens)
        IN  Assert(SameIdeal(K, Line.o, Ups(Line.R, I.F), I.B, Ups(Line.R, Gs)), <<"bad ghost generators", l>>)

TCase == IsEvent("case") /\ I' = <<>>
TSetup == IsEvent("setup") /\ Ok /\ Same
\* (no call) the history turns to another ideal or another order
TIdeal == /\ IsEvent("ideal") /\ Ok
          /\ LET F == Ps(Line.F)  B == Q(Line.B)  A == [i \in DOMAIN Line.A |-> Q(Line.A[i])]
             IN  /\ Assert(Certified(K, Line.o, Line.nv, Ups(Line.R, F), B, A), <<"bad ghost basis", l>>)
                 /\ I' = [F |-> F, B |-> B]
TGb == /\ IsEvent("gb") /\ Ok /\ Same /\ Gens
       /\ (\A i \in DOMAIN Line.r : OutOK(Line.r[i])) /\ BasisOK(Line.R, Line.o, I.B, Outs(Line.r))
\* an Ideal object: basis, then for each f <<contains(f), reduce(f)>>, then the basis and the generators again
TObj == /\ IsEvent("obj") /\ Ok /\ Same /\ Gens
        /\ \A b \in {1, 3} : (\A i \in DOMAIN Line.r[b] : OutOK(Line.r[b][i])) /\ BasisOK(Line.R, Line.o, I.B, Outs(Line.r[b]))
        /\ Len(Line.r[2]) = Len(Line.fs)
        /\ \A i \in DOMAIN Line.fs :
              LET f == P(Line.fs[i])  x == Line.r[2][i]
              IN  /\ x[1] = InIdeal(K, Line.o, I.B, Up(Line.R, f))
                  /\ OutOK(x[2]) /\ ReduceOK(Line.R, Line.o, I.B, f, PVal(x[2]))
        /\ Len(Line.r[4]) = Len(Line.gens) /\ \A i \in DOMAIN Line.gens : OutOK(Line.r[4][i]) /\ PVal(Line.r[4][i]) = P(Line.gens[i])
TNf == /\ IsEvent("nf") /\ Ok /\ Same /\ Gens /\ OutOK(Line.r)
       /\ NormalFormOK(Line.R, Line.o, I.B, Ps(Line.gens), P(Line.f), PVal(Line.r))
\* modulo the reduced basis itself, in any order and scaling
TNfb == /\ IsEvent("nfb") /\ Ok /\ Same /\ OutOK(Line.r)
        /\ LET D == Ps(Line.gens)
           IN  Assert(SameElements([i \in DOMAIN D |-> MonicG(K, Line.o, Up(Line.R, D[i]))], I.B), <<"bad ghost divisors", l>>)
        /\ ReduceOK(Line.R, Line.o, I.B, P(Line.f), PVal(Line.r))
TSp == IsEvent("sp") /\ Ok /\ Same /\ OutOK(Line.r) /\ SPolyOK(Line.R, Line.o, P(Line.f), P(Line.g), PVal(Line.r))

TraceInit == l = 1 /\ I = <<>>
TraceNext == TCase \/ TSetup \/ TIdeal \/ TGb \/ TObj \/ TNf \/ TNfb \/ TSp
TraceSpec == TraceInit /\ [][TraceNext]_<<l, I>>
=============================================================================
