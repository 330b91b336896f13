---------------------------- MODULE CLPolyRandom ----------------------------
(***************************************************************************)
(* Random generators (random.hh) as relations: which objects a request may *)
(* return.  Every draw must return one of them, whatever the source of     *)
(* randomness does; and each of them must be a possible outcome (checked   *)
(* on requests with few outcomes, over a history of many draws).           *)
(* Polynomials are in term form: sequences of <<exponents, coefficient>>.  *)
(***************************************************************************)
EXTENDS Poly

\* ---- selections -----------------------------------------------------------
IsSelection(m, n, norep, s) ==
    /\ \A i \in DOMAIN s : s[i] \in 0..(m - 1)
    /\ Len(s) = (IF norep /\ n > m THEN m ELSE n)
    /\ norep => \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Selections(m, n, norep) == {s \in [1..(IF norep /\ n > m THEN m ELSE n) -> 0..(m - 1)] : IsSelection(m, n, norep, s)}
\* a sample: entries at different places of the list
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
IsSample(s, n, t) == /\ Len(t) = (IF n < Len(s) THEN n ELSE Len(s))
                     /\ \A i \in DOMAIN t : CountIn(t, t[i]) <= CountIn(s, t[i])

\* ---- polynomials ----------------------------------------------------------
RECURSIVE BBinomial(_, _)
BBinomial(n, k) == IF k > n THEN BZero ELSE IF k = 0 THEN BOne ELSE BQuo(BMul(BBinomial(n, k - 1), BInt(n - k + 1)), BInt(k))
TotalDeg(e) == FoldLeft(LAMBDA s, x : s + x, 0, e)
MaxTotal(ts) == FoldLeft(LAMBDA s, t : IF TotalDeg(t[1]) > s THEN TotalDeg(t[1]) ELSE s, -1, ts)
UsesOnly(V, ts) == \A i \in DOMAIN ts : \A v \in DOMAIN ts[i][1] : ts[i][1][v] = 0 \/ v \in V
HasConstant(ts) == \E i \in DOMAIN ts : TotalDeg(ts[i][1]) = 0
BWithin(x, lo, hi) == IF BLe(lo, hi) THEN BLe(lo, x) /\ BLe(x, hi) ELSE BLe(hi, x) /\ BLe(x, lo)
\* coefficient c of ring R is a number of the range, up to a denominator of at most md
CoefWithin(R, c, lo, hi, md) ==
    IF R.k = "Z" THEN BWithin(c, lo, hi)
    ELSE \E d \in 1..md : LET n == BMul(c[1], BInt(d)) IN BMod(n, c[2]) = BZero /\ BWithin(BQuo(n, c[2]), lo, hi)
CoefsWithin(R, ts, lo, hi, md) == \A i \in DOMAIN ts : CoefWithin(R, ts[i][2], lo, hi, md)
\* q: [V: variables, deg, len, lo, hi, const, md];  ts is canonical
FixedLength(R, q, ts) ==
    LET V == q.V
        total == BBinomial(Cardinality(V) + q.deg, Cardinality(V))
        n == IF BLe(total, BInt(q.len)) THEN total ELSE BInt(q.len)      \* terms asked for
    IN  IF q.len = 0 THEN ts = <<>>
        ELSE /\ UsesOnly(V, ts) /\ CoefsWithin(R, ts, q.lo, q.hi, q.md)
             /\ MaxTotal(ts) = q.deg
             /\ BInt(Len(ts)) = n \/ (q.const /\ BInt(Len(ts)) = BAdd(n, BOne))
             /\ q.const => HasConstant(ts)
\* each monomial up to the degree with a probability: q.always / q.never when it is 1 / 0
BySparsity(R, q, ts) ==
    /\ UsesOnly(q.V, ts) /\ CoefsWithin(R, ts, q.lo, q.hi, 1) /\ MaxTotal(ts) <= q.deg
    /\ q.never => ts = <<>>
    /\ (q.always /\ ~BWithin(BZero, q.lo, q.hi)) => BInt(Len(ts)) = BBinomial(Cardinality(q.V) + q.deg, Cardinality(q.V))

\* ---- graphs ----------------------------------------------------------------
\* adjacency of a simple undirected graph on exactly these nodes
IsGraphOn(N, ns, adj, never, always) ==
    /\ Len(ns) = Cardinality(N) /\ {ns[i] : i \in DOMAIN ns} = N /\ Len(adj) = Len(ns)
    /\ LET E == UNION {{<<ns[i], adj[i][k]>> : k \in DOMAIN adj[i]} : i \in DOMAIN ns}
       IN  /\ \A e \in E : e[1] # e[2] /\ e[2] \in N /\ <<e[2], e[1]>> \in E
           /\ never => E = {}
           /\ always => E = {e \in N \X N : e[1] # e[2]}
=============================================================================
