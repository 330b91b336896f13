------------------------------ MODULE MCSModel ------------------------------
(***************************************************************************)
(* Design model: maximum cardinality search (MCS) and MCS-M on every graph *)
(* with nodes 1..Size, every tie broken in every way.                      *)
(*   MCS:   the reversed visit order is a perfect elimination ordering of  *)
(*          every chordal graph;                                           *)
(*   MCS-M: the edges added make a minimal triangulation with that order   *)
(*          as a perfect elimination ordering.                             *)
(* Both facts and the two characterisations CLPolyGraph uses (chordality   *)
(* by simplicial elimination, minimality by 4-cycles) are checked against  *)
(* the textbook definitions (no chordless cycle; no edge can be dropped).  *)
(***************************************************************************)
EXTENDS CLPolyGraph, TLC
CONSTANTS Size, Fill          \* Fill: MCS-M rather than MCS
VARIABLES g, h, w, order      \* input, filled graph, weights, ordering so far (last first)
vars == <<g, h, w, order>>
Nodes == 1..Size
Graphs == {[N |-> Nodes, E |-> UNION {{<<p[1], p[2]>>, <<p[2], p[1]>>} : p \in P}] : P \in SUBSET {p \in Nodes \X Nodes : p[1] < p[2]}}
Open == Nodes \ {order[i] : i \in DOMAIN order}
\* u is reached from v through unvisited nodes of smaller weight than its own
RECURSIVE Spread(_, _, _)
Spread(S, u, v) == LET T == S \cup {b \in Open : b # v /\ w[b] < w[u] /\ \E a \in S : <<a, b>> \in g.E}
                   IN  IF T = S THEN S ELSE Spread(T, u, v)
Reaches(v, u) == \E a \in Spread({v}, u, v) : <<a, u>> \in g.E
Init == g \in Graphs /\ h = g /\ w = [a \in Nodes |-> 0] /\ order = <<>>
Visit(v) ==
    LET S == IF Fill THEN {u \in Open \ {v} : Reaches(v, u)} ELSE GAdj(g, v) \cap (Open \ {v})
    IN  /\ w' = [a \in Nodes |-> IF a \in S THEN w[a] + 1 ELSE w[a]]
        /\ h' = [h EXCEPT !.E = @ \cup UNION {{<<u, v>>, <<v, u>>} : u \in S}]
        /\ order' = <<v>> \o order
        /\ UNCHANGED g
Next == \E v \in Open : (\A u \in Open : w[u] <= w[v]) /\ Visit(v)
Spec == Init /\ [][Next]_vars
Done == Open = {}
\* textbook definitions
ChordlessCycle(x) == \E n \in 4..Size : \E c \in [1..n -> Nodes] :
    /\ \A i, j \in 1..n : i # j => c[i] # c[j]
    /\ \A i, j \in 1..n : i # j => ((<<c[i], c[j]>> \in x.E) <=> (j = (i % n) + 1 \/ i = (j % n) + 1))
ChordalDef(x) == ~ChordlessCycle(x)
MinimalDef(x, y) == \A F \in SUBSET {e \in y.E \ x.E : e[1] < e[2]} :
    F # {} => ~ChordalDef([y EXCEPT !.E = @ \ UNION {{e, <<e[2], e[1]>>} : e \in F}])
\* invariants
DefsAgree == order = <<>> => (Chordal(g) <=> ChordalDef(g))
SearchOK == Done => IF Fill THEN /\ Triangulation(g, h) /\ IsPEO(h, order) /\ Eliminate(g, order) = h
                                 /\ (h # g => MinimalDef(g, h))
                    ELSE Chordal(g) => IsPEO(g, order)
=============================================================================
