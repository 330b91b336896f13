----------------------------- MODULE TraceRandom -----------------------------
EXTENDS CLPolyRandom, TraceBase
VARIABLE Seen        \* distinct outcomes of the current request so far (where the history collects them)

SetOf(s) == {s[i] : i \in DOMAIN s}
Ok == Line.s = "ok"
\* Line.r: the distinct outcomes of many draws
Outcomes == SetOf(Line.r)
Draws(P(_)) == Ok /\ Seen' = (IF Line.keep THEN Seen \cup Outcomes ELSE Seen) /\ ((\A i \in DOMAIN Line.r : P(Line.r[i])) = TRUE)
PolyOK(ts) == Canonical(Line.R, Line.o, ts)
Q == [V |-> SetOf(Line.V), deg |-> Line.deg, len |-> Line.len, lo |-> Line.lo, hi |-> Line.hi, const |-> Line.const, md |-> Line.md]
QS == [V |-> SetOf(Line.V), deg |-> Line.deg, lo |-> Line.lo, hi |-> Line.hi, never |-> Line.never, always |-> Line.always]

TCase == IsEvent("case") /\ Seen' = {}
TSetup == IsEvent("setup") /\ Ok /\ UNCHANGED Seen
TTurn == IsEvent("turn") /\ Ok /\ Seen' = {}                  \* another request
TSelect == IsEvent("select") /\ Draws(LAMBDA s : IsSelection(Line.m, Line.n, Line.norep, s))
TSample == IsEvent("sample") /\ Draws(LAMBDA t : IsSample(Line.l, Line.n, t))
TPoly == IsEvent("poly") /\ Draws(LAMBDA ts : PolyOK(ts) /\ FixedLength(Line.R, Q, ts))
TSparse == IsEvent("sparse") /\ Draws(LAMBDA ts : PolyOK(ts) /\ BySparsity(Line.R, QS, ts))
TGraph == IsEvent("graph") /\ Draws(LAMBDA g : IsGraphOn(SetOf(Line.N), g[1], g[2], Line.never, Line.always))
\* a family of polynomials: each within the bounds, in at least two variables when dense
TFamily == IsEvent("family") /\ Draws(LAMBDA F : /\ Len(F) <= Len(Line.V)
                                                 /\ \A i \in DOMAIN F : PolyOK(F[i]) /\ BySparsity(Line.R, QS, F[i]))
\* (no call) everything the request permits has been drawn
TAllSelections == IsEvent("all-select") /\ Ok /\ Seen' = {} /\ {SetOf(s) : s \in Seen} = {SetOf(s) : s \in Selections(Line.m, Line.n, Line.norep)}
TAllSamples == /\ IsEvent("all-sample") /\ Ok /\ Seen' = {}
               /\ {SetOf(s) : s \in Seen} = {S \in SUBSET SetOf(Line.l) : Cardinality(S) = (IF Line.n < Len(Line.l) THEN Line.n ELSE Len(Line.l))}
Monos(V, d) == {e \in [1..Line.nv -> 0..d] : TotalDeg(e) <= d /\ \A v \in DOMAIN e : e[v] = 0 \/ v \in V}
TAllSupports == /\ IsEvent("all-poly") /\ Ok /\ Seen' = {}
                /\ {{t[1] : t \in SetOf(ts)} : ts \in Seen} =
                   {S \in SUBSET Monos(SetOf(Line.V), Line.deg) : Cardinality(S) = Line.len /\ \E e \in S : TotalDeg(e) = Line.deg}
TAllCoefs == IsEvent("all-coef") /\ Ok /\ Seen' = {} /\ UNION {{t[2] : t \in SetOf(ts)} : ts \in Seen} = SetOf(Line.cs)
TAllEdges == IsEvent("all-graph") /\ Ok /\ Seen' = {} /\ Cardinality(Seen) = Line.count

TraceInit == l = 1 /\ Seen = {}
TraceNext == TCase \/ TSetup \/ TTurn \/ TSelect \/ TSample \/ TPoly \/ TSparse \/ TGraph \/ TFamily
             \/ TAllSelections \/ TAllSamples \/ TAllSupports \/ TAllCoefs \/ TAllEdges
TraceSpec == TraceInit /\ [][TraceNext]_<<l, Seen>>
=============================================================================
