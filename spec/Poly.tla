------------------------------- MODULE Poly -------------------------------
(***************************************************************************)
(* Polynomials over ZZ, QQ or Z/p in a fixed list of variables, as finite  *)
(* functions from exponent tuples to nonzero coefficients.                 *)
(* A ring is [k |-> "Z"], [k |-> "Q"] or [k |-> "P", p |-> prime].         *)
(* An order is [g |-> graded?, prec |-> variable indices, main one first]. *)
(* Operators marked (J) have a Java override used for speed only;          *)
(* PolyCheck.tla compares the overrides with these definitions.            *)
(***************************************************************************)
EXTENDS Numbers, SequencesExt, FiniteSetsExt, Functions

RZ == [k |-> "Z"]
RQ == [k |-> "Q"]
RP(p) == [k |-> "P", p |-> p]
\* ----------------------------------------------------------- coefficients --
CInt(R, n) == CASE R.k = "Z" -> n [] R.k = "Q" -> QInt(n) [] R.k = "P" -> BMod(n, R.p)
CZero(R) == CInt(R, BZero)
COne(R)  == CInt(R, BOne)
CAdd(R, a, b) == CASE R.k = "Z" -> BAdd(a, b) [] R.k = "Q" -> QAdd(a, b) [] R.k = "P" -> BMod(BAdd(a, b), R.p)
CMul(R, a, b) == CASE R.k = "Z" -> BMul(a, b) [] R.k = "Q" -> QMul(a, b) [] R.k = "P" -> BMod(BMul(a, b), R.p)
CNeg(R, a) == CASE R.k = "Z" -> BNeg(a) [] R.k = "Q" -> QNeg(a) [] R.k = "P" -> BMod(BNeg(a), R.p)
CWellFormed(R, a) == CASE R.k = "Z" -> BWellFormed(a) [] R.k = "Q" -> QWellFormed(a)
                       [] R.k = "P" -> BWellFormed(a) /\ BLe(BZero, a) /\ BLt(a, R.p)
\* does b divide a ?   (b # 0)
CDivides(R, b, a) == R.k # "Z" \/ BRem(a, b) = BZero
CDiv(R, a, b) == CASE R.k = "Z" -> BQuo(a, b) [] R.k = "Q" -> QDiv(a, b) [] R.k = "P" -> BMod(BMul(a, PInv(b, R.p)), R.p)
CPow(R, a, n) == CASE R.k = "Z" -> BPow(a, n) [] R.k = "Q" -> QPow(a, n) [] R.k = "P" -> BPowMod(a, BInt(n), R.p)
\* smaller than b, as a remainder:  over a field only zero is
CReduced(R, c, b) == IF R.k = "Z" THEN BLt(BAbs(c), BAbs(b)) ELSE FALSE

\* -------------------------------------------------------------- monomials --
XZero(nv) == [i \in 1..nv |-> 0]
XUnit(nv, v, e) == [i \in 1..nv |-> IF i = v THEN e ELSE 0]
XMul(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
XQuo(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
XDivides(b, a) == \A i \in DOMAIN a : b[i] <= a[i]
XDeg(a) == FoldLeft(LAMBDA s, x : s + x, 0, a)
XSet(a, v, e) == [a EXCEPT ![v] = e]
LexGreater(prec, a, b) == \E i \in DOMAIN prec : /\ a[prec[i]] > b[prec[i]]
                                                 /\ \A j \in 1..(i - 1) : a[prec[j]] = b[prec[j]]
XGreater(o, a, b) == IF o.g /\ XDeg(a) # XDeg(b) THEN XDeg(a) > XDeg(b) ELSE LexGreater(o.prec, a, b)

\* ------------------------------------------------------------ polynomials --
PZero == <<>>
PIsZero(p) == DOMAIN p = {}
PClean(R, f) == [m \in {x \in DOMAIN f : f[x] # CZero(R)} |-> f[m]]
At(R, p, m) == IF m \in DOMAIN p THEN p[m] ELSE CZero(R)
PConst(R, nv, c) == IF c = CZero(R) THEN PZero ELSE (XZero(nv) :> c)
PMono(R, m, c) == IF c = CZero(R) THEN PZero ELSE (m :> c)
\* the polynomial written by a list of terms                               (J)
PFromTerms(R, ts) ==
    PClean(R, [m \in {ts[i][1] : i \in DOMAIN ts} |->
                 FoldLeft(LAMBDA s, t : IF t[1] = m THEN CAdd(R, s, t[2]) ELSE s, CZero(R), ts)])
PAdd(R, p, q) == PClean(R, [m \in DOMAIN p \cup DOMAIN q |-> CAdd(R, At(R, p, m), At(R, q, m))])     \* (J)
PScale(R, p, c) == PClean(R, [m \in DOMAIN p |-> CMul(R, p[m], c)])                                   \* (J)
PNeg(R, p) == PScale(R, p, CInt(R, BInt(-1)))
PSub(R, p, q) == PAdd(R, p, PNeg(R, q))
PMul(R, p, q) ==                                                                                      \* (J)
    PClean(R, [s \in {XMul(m, n) : m \in DOMAIN p, n \in DOMAIN q} |->
                 FoldSet(LAMBDA m, a : LET n == XQuo(s, m)
                                       IN  IF n \in DOMAIN q THEN CAdd(R, a, CMul(R, p[m], q[n])) ELSE a,
                         CZero(R), DOMAIN p)])
RECURSIVE PPow(_, _, _, _)
PPow(R, nv, p, n) == IF n = 0 THEN PConst(R, nv, COne(R))                                             \* (J)
                     ELSE PMul(R, p, PPow(R, nv, p, n - 1))
PProd(R, nv, s) == FoldLeft(LAMBDA a, f : PMul(R, a, f), PConst(R, nv, COne(R)), s)
\* substitution of the constant c for variable v                           (J)
PSubst(R, p, v, c) ==
    FoldSet(LAMBDA m, a : PAdd(R, a, PMono(R, XSet(m, v, 0), CMul(R, p[m], CPow(R, c, m[v])))), PZero, DOMAIN p)
\* substitution of values for the variables i with vals[i][1] = variable
PSubstAll(R, p, vals) == FoldLeft(LAMBDA a, x : PSubst(R, a, x[1], x[2]), p, vals)
\* value at a point (one coefficient per variable)
PEval(R, nv, p, pt) == LET q == FoldLeft(LAMBDA a, i : PSubst(R, a, i, pt[i]), p, [i \in 1..nv |-> i])
                       IN  At(R, q, XZero(nv))
\* image of an integer or rational polynomial in another ring (every denominator a unit there)
PMapQ(p) == [m \in DOMAIN p |-> QInt(p[m])]
PMod(p, pr) == PClean(RP(pr), [m \in DOMAIN p |-> BMod(p[m], pr)])

PDegree(p) == IF PIsZero(p) THEN 0 ELSE Max({XDeg(m) : m \in DOMAIN p})
PDegIn(p, v) == IF PIsZero(p) THEN 0 ELSE Max({m[v] : m \in DOMAIN p})
PIsConst(p) == \A m \in DOMAIN p : \A i \in DOMAIN m : m[i] = 0
PVars(nv, p) == {v \in 1..nv : \E m \in DOMAIN p : m[v] > 0}
\* coefficient of v^d, a polynomial without v
PCoeff(p, v, d) == LET S == {m \in DOMAIN p : m[v] = d}
                   IN  [m \in {XSet(x, v, 0) : x \in S} |-> p[XSet(m, v, d)]]
PLc(p, v) == PCoeff(p, v, PDegIn(p, v))
PShift(p, v, d) == [m \in {XSet(x, v, x[v] + d) : x \in DOMAIN p} |-> p[XSet(m, v, m[v] - d)]]
PDeriv(R, p, v) == LET S == {m \in DOMAIN p : m[v] > 0}
                   IN  PClean(R, [m \in {XSet(x, v, x[v] - 1) : x \in S} |->
                                     CMul(R, CInt(R, BInt(m[v] + 1)), p[XSet(m, v, m[v] + 1)])])
\* v * d/dv of the polynomial obtained from p by replacing every x by x^S, written with e for S e again
PEuler(R, p, v, S) == PClean(R, [m \in DOMAIN p |-> CMul(R, CInt(R, BMul(S, BInt(m[v]))), p[m])])
LeadMono(o, p) == LET S == DOMAIN p  s0 == CHOOSE m \in S : TRUE
                  IN  FoldSet(LAMBDA m, a : IF XGreater(o, m, a) THEN m ELSE a, s0, S)
\* the order of polynomials: they are compared at the greatest monomial where they differ, a term
\* being greater than none and, of two terms, the one with the greater coefficient (ZZ and QQ only)
CGreater(R, a, b) == CASE R.k = "Z" -> BLt(b, a) [] R.k = "Q" -> QLt(b, a)
PGreater(R, o, p, q) ==
    p # q /\ LET D == {m \in DOMAIN p \cup DOMAIN q : (m \in DOMAIN p) # (m \in DOMAIN q) \/ p[m] # q[m]}
                 t == FoldSet(LAMBDA m, a : IF XGreater(o, m, a) THEN m ELSE a, CHOOSE m \in D : TRUE, D)
             IN  t \in DOMAIN p /\ (t \notin DOMAIN q \/ CGreater(R, p[t], q[t]))
\* the stored form: strictly decreasing, no zero coefficients
Canonical(R, o, ts) == /\ \A i \in DOMAIN ts : CWellFormed(R, ts[i][2]) /\ ts[i][2] # CZero(R)
                       /\ \A i \in 1..(Len(ts) - 1) : XGreater(o, ts[i][1], ts[i + 1][1])
\* value of a stored form known to be canonical                            (J: same as PFromTerms)
PVal(ts) == [m \in {ts[i][1] : i \in DOMAIN ts} |-> (ts[CHOOSE i \in DOMAIN ts : ts[i][1] = m])[2]]   \* (J)
\* ts is exactly the stored form of p
Stores(R, o, ts, p) == Canonical(R, o, ts) /\ Len(ts) = Cardinality(DOMAIN p) /\ PVal(ts) = p

\* ---------------------------------------------------------------- division --
\* r = f - q g  has no term reducible by the leading term of g
Reduced(R, o, r, g) == LET lm == LeadMono(o, g)  lc == g[lm]
                       IN  \A m \in DOMAIN r : XDivides(lm, m) => CReduced(R, r[m], lc)
DivOK(R, o, f, g, q, r) == PSub(R, f, PMul(R, q, g)) = r /\ Reduced(R, o, r, g)
\* exact quotient:  <<TRUE, q>> with f = q g, or <<FALSE, ...>>            (J)
RECURSIVE DivStep(_, _, _, _, _)
DivStep(R, o, f, g, q) ==
    IF PIsZero(f) THEN <<TRUE, q>>
    ELSE LET m == LeadMono(o, f)  lm == LeadMono(o, g)
         IN  IF ~ XDivides(lm, m) \/ ~ CDivides(R, g[lm], f[m]) THEN <<FALSE, PZero>>
             ELSE LET t == PMono(R, XQuo(m, lm), CDiv(R, f[m], g[lm]))
                  IN  DivStep(R, o, PSub(R, f, PMul(R, t, g)), g, PAdd(R, q, t))
LexOrd(nv) == [g |-> FALSE, prec |-> [i \in 1..nv |-> i]]
PDivExact(R, nv, f, g) == DivStep(R, LexOrd(nv), f, g, PZero)                                         \* (J)
PDivides(R, nv, g, f) == IF PIsZero(g) THEN PIsZero(f) ELSE PDivExact(R, nv, f, g)[1]
PExact(R, nv, f, g) == PDivExact(R, nv, f, g)[2]

\* normal form over a field: reduce the leading term by the first member of G that can, else move it to the remainder   (J)
RECURSIVE NFStep(_, _, _, _, _)
NFStep(R, o, h, G, r) ==
    IF PIsZero(h) THEN r
    ELSE LET m == LeadMono(o, h)
             I == {i \in DOMAIN G : XDivides(LeadMono(o, G[i]), m)}
         IN  IF I = {} THEN NFStep(R, o, PSub(R, h, PMono(R, m, h[m])), G, PAdd(R, r, PMono(R, m, h[m])))
             ELSE LET g == G[Min(I)]  lm == LeadMono(o, g)
                  IN  NFStep(R, o, PSub(R, h, PMul(R, PMono(R, XQuo(m, lm), CDiv(R, h[m], g[lm])), g)), G, r)
PNF(R, o, f, G) == NFStep(R, o, f, G, PZero)

\* pseudo-division of g by f in v:  lc(f)^(d+1) g = q f + r,  deg_v r < deg_v f
RECURSIVE PseudoStep(_, _, _, _, _, _, _)
PseudoStep(R, f, v, lc, q, r, k) ==
    IF PIsZero(r) \/ PDegIn(r, v) < PDegIn(f, v) THEN [q |-> q, r |-> r, k |-> k]
    ELSE LET t == PShift(PLc(r, v), v, PDegIn(r, v) - PDegIn(f, v))
         IN  PseudoStep(R, f, v, lc, PAdd(R, PMul(R, q, lc), t),
                        PSub(R, PMul(R, r, lc), PMul(R, t, f)), k + 1)
PseudoDiv(R, g, f, v) == PseudoStep(R, f, v, PLc(f, v), PZero, g, 0)
\* with the full power of the leading coefficient
PseudoFull(R, nv, g, f, v) ==
    LET x == PseudoDiv(R, g, f, v)
        d == PDegIn(g, v) - PDegIn(f, v) + 1
        s == IF PIsZero(g) \/ d <= 0 THEN PConst(R, nv, COne(R)) ELSE PPow(R, nv, PLc(f, v), d - x.k)
    IN  [q |-> PMul(R, x.q, s), r |-> PMul(R, x.r, s), k |-> IF PIsZero(g) \/ d <= 0 THEN 0 ELSE d]
=============================================================================
