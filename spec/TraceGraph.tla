----------------------------- MODULE TraceGraph -----------------------------
EXTENDS CLPolyGraph, TraceBase
VARIABLE G        \* graph registers

SetOf(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
Ok == Line.s = "ok"
Same == UNCHANGED G
Put(r, g) == G' = [G EXCEPT ![r] = g]
H == G[Line.x]
\* a projected graph: nodes in index order, then the adjacency of each
GraphOf(x) == [N |-> SetOf(x[1]), E |-> UNION {{<<x[1][i], b>> : b \in SetOf(x[2][i])} : i \in DOMAIN x[1]}]
GraphShape(x) == Distinct(x[1]) /\ Len(x[2]) = Len(x[1]) /\ \A i \in DOMAIN x[2] : Distinct(x[2][i]) /\ SetOf(x[2][i]) \subseteq SetOf(x[1])
Shows(x, g) == GraphShape(x) /\ GraphOf(x) = g
Domain(c) == Assert(c, <<"bad ghost graph", l>>)

TCase == IsEvent("case") /\ G' = [r \in 0..3 |-> NoGraph]
TSetup == IsEvent("setup") /\ Ok /\ Same
TClear == IsEvent("clear") /\ Ok /\ Put(Line.d, NoGraph)
TCopy == IsEvent("copy") /\ Ok /\ Put(Line.d, H)
TNode == IsEvent("node") /\ Ok /\ Put(Line.d, AddNode(G[Line.d], Line.a))
TEdge == IsEvent("edge") /\ Ok /\ Put(Line.d, AddEdge(G[Line.d], Line.a, Line.b, Line.dir))
\* many at once, from nothing
TMake == IsEvent("make") /\ Ok /\ Put(Line.d, [N |-> SetOf(Line.ns), E |-> UNION {{e, <<e[2], e[1]>>} : e \in SetOf(Line.es)}])
TShow == IsEvent("show") /\ Ok /\ Same /\ Shows(Line.r, H)
TIsEdge == IsEvent("isedge") /\ Ok /\ Same /\ Line.r = (<<Line.a, Line.b>> \in H.E)
TNbr == IsEvent("nbr") /\ Ok /\ Same /\ Distinct(Line.r) /\ SetOf(Line.r) = GAdj(H, Line.a)
TChordal == /\ IsEvent("chordal") /\ Ok /\ Domain(Simple(H))
            /\ LET h == GraphOf(Line.r[1])
               IN  /\ Put(Line.d, h)
                   /\ GraphShape(Line.r[1]) /\ Triangulation(H, h)
                   /\ (Line.k # 3 => IsPEO(h, Line.r[2])) = TRUE
TPeo == /\ IsEvent("peo") /\ Ok /\ Same /\ Domain(Simple(H))
        /\ Ordering(H, Line.r) /\ (Chordal(H) => IsPEO(H, Line.r)) = TRUE
TBranch == /\ IsEvent("branch") /\ Ok /\ Same /\ Domain(Undirected(H))
           /\ (\A i \in DOMAIN Line.r : Distinct(Line.r[i])) /\ Len(Line.r) = Cardinality(Components(H))
           /\ {SetOf(Line.r[i]) : i \in DOMAIN Line.r} = Components(H)
TBranchGraph == /\ IsEvent("bgraph") /\ Ok /\ Domain(Undirected(H)) /\ Put(Line.d, ComponentGraph(H)) /\ Shows(Line.r, ComponentGraph(H))
TElim == /\ IsEvent("elim") /\ Ok /\ Domain(Simple(H) /\ Distinct(Line.o) /\ SetOf(Line.o) \subseteq H.N)
         /\ LET h == Eliminate(H, Line.o) IN Put(Line.d, h) /\ Shows(Line.r, h)
THeight == /\ IsEvent("height") /\ Ok /\ Same /\ Domain(Simple(H) /\ Ordering(H, Line.o))
           /\ Line.r = TreeHeight(H, Line.o)
TScore == IsEvent("score") /\ Ok /\ Same /\ Domain(ScoreDen(H, G[Line.y]) > 0) /\ ScoreOK(H, G[Line.y], Line.r) = TRUE
TEcc == IsEvent("ecc") /\ Ok /\ Same /\ Domain(Line.a \in H.N) /\ Line.r = Eccentricity(H, Line.a)
VarSets == [i \in DOMAIN Line.vs |-> SetOf(Line.vs[i])]
TAssoc == IsEvent("assoc") /\ Ok /\ Put(Line.d, Associated(VarSets)) /\ Shows(Line.r, Associated(VarSets))
\* an ordering of the variables of a polynomial set: one that yields a minimal triangulation
TPolyPeo == /\ IsEvent("ppeo") /\ Ok /\ Same
            /\ LET g == Associated(VarSets)
               IN  Ordering(g, Line.r) /\ Minimal(g, Eliminate(g, Line.r))

TraceInit == l = 1 /\ G = [r \in 0..3 |-> NoGraph]
TraceNext == TCase \/ TSetup \/ TClear \/ TCopy \/ TNode \/ TEdge \/ TMake \/ TShow \/ TIsEdge \/ TNbr \/ TChordal \/ TPeo \/ TBranch
             \/ TBranchGraph \/ TElim \/ THeight \/ TScore \/ TEcc \/ TAssoc \/ TPolyPeo
TraceSpec == TraceInit /\ [][TraceNext]_<<l, G>>
=============================================================================
