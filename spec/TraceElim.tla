----------------------------- MODULE TraceElim -----------------------------
EXTENDS CLPolyElim, TraceBase

Ok == Line.s = "ok"
F == PFromTerms(Line.R, Line.f)
G == PFromTerms(Line.R, Line.g)
OutOK(ts) == Canonical(Line.R, Line.o, ts)
Outs(s) == [i \in DOMAIN s |-> PVal(s[i])]
Ps == [i \in DOMAIN Line.fs |-> PFromTerms(Line.R, Line.fs[i])]
ZOut(ts) == Canonical(RZ, Line.o, ts)

TSetup == IsEvent("setup") /\ Ok
TRes == IsEvent("res") /\ Ok /\ OutOK(Line.r) /\ ResOK(Line.R, Line.nv, F, G, Line.v, PVal(Line.r))
TBez == IsEvent("bez") /\ Ok /\ OutOK(Line.r) /\ ResOK(Line.R, Line.nv, F, G, Line.v, PVal(Line.r))
TSub == IsEvent("sub") /\ Ok /\ (\A i \in DOMAIN Line.r : OutOK(Line.r[i])) /\ SubresOK(Line.R, Line.nv, F, G, Line.v, Outs(Line.r))
TSub0 == IsEvent("sub0") /\ Ok /\ (\A i \in DOMAIN Line.r : OutOK(Line.r[i])) /\ Subres0OK(Line.R, Line.nv, F, G, Line.v, Outs(Line.r))
TDisc == IsEvent("disc") /\ Ok /\ OutOK(Line.r) /\ DiscOK(Line.R, Line.nv, F, Line.v, PVal(Line.r))

SetsOK(D) == \A k \in DOMAIN D : \A i \in DOMAIN D[k] : ZOut(D[k][i])
Sets(D) == [k \in DOMAIN D |-> Outs(D[k])]
TCs == /\ IsEvent("cs") /\ Ok /\ (\A i \in DOMAIN Line.r : ZOut(Line.r[i]))
       /\ CharsetOK(Line.o.prec, Line.nv, Ps, Outs(Line.r), Line.pts)
TDec == IsEvent("dec") /\ Ok /\ SetsOK(Line.r) /\ DecompOK(Line.o.prec, Line.nv, Ps, Sets(Line.r), Line.pts)
TSplit == IsEvent("split") /\ Ok /\ SetsOK(Line.r[1]) /\ SetsOK(Line.r[2])
          /\ SplitOK(Line.o.prec, Line.nv, Ps, F, <<Sets(Line.r[1]), Sets(Line.r[2])>>, Line.pts)
TRef == IsEvent("ref") /\ Ok /\ SetsOK(Line.r) /\ RefineOK(Line.o.prec, Line.nv, Ps, Sets(Line.r), Line.pts)
TSqf == IsEvent("sqfree") /\ Ok /\ SetsOK(Line.r) /\ SqfreeOK(Line.o.prec, Line.nv, Ps, Sets(Line.r), Line.pts)
Polys(fs) == [i \in DOMAIN fs |-> PFromTerms(Line.R, fs[i])]
TReg == IsEvent("reg") /\ Ok /\ RegularOK(Line.o.prec, Line.nv, Ps, [i \in DOMAIN Line.lin |-> Polys(Line.lin[i])], Line.r)
TSas == /\ IsEvent("sas") /\ Ok /\ (\A k \in DOMAIN Line.r : SetsOK(Line.r[k]))
        /\ CondOK(Line.o.prec, Line.nv, Ps, Polys(Line.g1), Polys(Line.g2) \o Polys(Line.h), [k \in DOMAIN Line.r |-> Sets(Line.r[k])], Line.pts)
TReset == IsEvent("case")

TraceInit == l = 1
TraceNext == TReset \/ TSetup \/ TRes \/ TBez \/ TSub \/ TSub0 \/ TDisc \/ TCs \/ TDec \/ TRef \/ TSqf \/ TReg \/ TSas \/ TSplit
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
