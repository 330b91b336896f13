---------------------------- MODULE CLPolyGraph ----------------------------
(***************************************************************************)
(* Graphs of variables (associatedgraph.hh).                               *)
(*                                                                         *)
(* A graph is a record [N, E]: a finite set of nodes and a set of ordered  *)
(* pairs of nodes; it is undirected when E is symmetric.  How an operation *)
(* breaks ties is left open: a chordal completion is any minimal           *)
(* triangulation, an elimination ordering any ordering with the promised   *)
(* property.  MCSModel.tla shows that maximum cardinality search and its   *)
(* variant MCS-M produce exactly such objects for every choice.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

NoGraph == [N |-> {}, E |-> {}]
AddNode(g, a) == [g EXCEPT !.N = @ \cup {a}]
AddEdge(g, a, b, directed) == [N |-> g.N \cup {a, b}, E |-> g.E \cup {<<a, b>>} \cup (IF directed THEN {} ELSE {<<b, a>>})]
GAdj(g, a) == {b \in g.N : <<a, b>> \in g.E}
Undirected(g) == \A e \in g.E : <<e[2], e[1]>> \in g.E
Simple(g) == Undirected(g) /\ \A e \in g.E : e[1] # e[2]
Clique(g, S) == \A a, b \in S : a # b => <<a, b>> \in g.E
AllPairs(S) == {e \in S \X S : e[1] # e[2]}

\* ---- orderings and elimination -------------------------------------------
Ordering(g, s) == Len(s) = Cardinality(g.N) /\ {s[i] : i \in DOMAIN s} = g.N
PosIn(s, a) == CHOOSE i \in DOMAIN s : s[i] = a
Later(g, s, i) == {b \in GAdj(g, s[i]) : \A k \in 1..i : s[k] # b}
\* eliminating the nodes of s in turn joins the remaining neighbours of each
Eliminate(g, s) ==
    LET RECURSIVE El(_, _)
        El(h, i) == IF i > Len(s) THEN h
                    ELSE El([h EXCEPT !.E = @ \cup AllPairs(Later(h, s, i))], i + 1)
    IN  El(g, 1)
IsPEO(g, s) == Ordering(g, s) /\ \A i \in DOMAIN s : Clique(g, Later(g, s, i))
\* a graph is chordal iff eliminating simplicial nodes, in any order, exhausts it
Chordal(g) == LET RECURSIVE Ch(_)
                  Ch(V) == IF V = {} THEN TRUE
                           ELSE LET S == {a \in V : Clique(g, GAdj(g, a) \cap V)}
                                IN  S # {} /\ Ch(V \ {CHOOSE a \in S : TRUE})
              IN  Ch(g.N)
\* h, a chordal supergraph of g, is minimal iff every added edge is the only chord of some 4-cycle
Minimal(g, h) == \A e \in h.E \ g.E : ~Clique(h, GAdj(h, e[1]) \cap GAdj(h, e[2]))
Triangulation(g, h) == h.N = g.N /\ g.E \subseteq h.E /\ Simple(h) /\ Chordal(h) /\ Minimal(g, h)

\* the elimination tree: the parent of a node is its first later neighbour in the filled graph
TreeHeight(g, s) ==
    LET h == Eliminate(g, s)
        n == Len(s)
        Par(i) == LET L == {PosIn(s, b) : b \in Later(h, s, i)} IN IF L = {} THEN 0 ELSE Min(L)
        par == [i \in 1..n |-> Par(i)]
        RECURSIVE Depth(_)
        Depth(i) == IF par[i] = 0 THEN 0 ELSE 1 + Depth(par[i])
    IN  Max({Depth(i) : i \in 1..n} \cup {0})

\* ---- components and distances --------------------------------------------
RECURSIVE Reach(_, _)
Reach(g, S) == LET T == S \cup {e[2] : e \in {x \in g.E : x[1] \in S}} IN IF T = S THEN S ELSE Reach(g, T)
Component(g, a) == Reach(g, {a})
Components(g) == {Component(g, a) : a \in g.N}
ComponentGraph(g) == [g EXCEPT !.E = @ \cup {e \in AllPairs(g.N) : e[2] \in Component(g, e[1])}]
RECURSIVE Ecc(_, _, _)
Ecc(g, S, d) == LET T == S \cup {e[2] : e \in {x \in g.E : x[1] \in S}} IN IF T = S THEN d ELSE Ecc(g, T, d + 1)
Eccentricity(g, a) == Ecc(g, {a}, 0)

\* ---- similarity: 1 - |common edges| / |all edges| -------------------------
ScoreNum(g, h) == Cardinality(g.E \cup h.E) - Cardinality(g.E \cap h.E)
ScoreDen(g, h) == Cardinality(g.E \cup h.E)
\* the observed score, in millionths
ScoreOK(g, h, x) == LET t == (1000000 * ScoreNum(g, h)) \div ScoreDen(g, h) IN x \in {t, t + 1} \/ x + 1 = t

\* ---- the graph of a polynomial set ----------------------------------------
\* vs: for each polynomial the set of variables occurring in it
Associated(vs) == [N |-> UNION {vs[i] : i \in DOMAIN vs}, E |-> UNION {AllPairs(vs[i]) : i \in DOMAIN vs}]
=============================================================================
