---------------------------- MODULE CLPolyFactor ----------------------------
(***************************************************************************)
(* Complete factorization in Z[x_1..x_n], Q[x_1..x_n] and Z/p[x].          *)
(*                                                                         *)
(* Q[x_1..x_n] is a unique factorization domain, so a polynomial given     *)
(* together with one factorization into irreducibles determines what every *)
(* complete factorization of it must list, up to units and order.  A       *)
(* history therefore carries, for each operand, a ghost factorization with *)
(* a certificate of irreducibility for each ghost factor; the certificates *)
(* are checked here, from first principles, and never trusted:             *)
(*   lin  f = a v + b with gcd(a, b) = 1                                   *)
(*   deg  no degree in v between 0 and deg_v f is a sum of degrees of      *)
(*        irreducible factors of each of several images of f modulo small  *)
(*        primes, and the coefficients of f in v have no common factor     *)
(*   val  an image in Z[v] takes a value d q, q prime, d small, at an      *)
(*        integer beyond all its roots by more than d                      *)
(*   cyc  f is a cyclotomic polynomial                                     *)
(* Over Z/p no ghost is needed: irreducibility is decided by the distinct- *)
(* degree pattern of each listed factor.                                   *)
(***************************************************************************)
EXTENDS CLPolyGcd

SmallPrimes == << 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127,
                  1009, 1013, 1019, 1021, 1031, 1033, 1039, 1049, 1051, 1061 >>
SumSets(d, n) == FoldLeft(LAMBDA S, k : FoldLeft(LAMBDA T, i : T \cup {x + k : x \in T}, S, [i \in 1..d[k] |-> i]), {0}, [k \in DOMAIN d |-> k])
\* no common factor of positive degree among the coefficients in v, nor a numeric one
ContentFree(nv, f, v) == JointlyCoprimeZ(nv, CoeffsIn(f, v))

IrrLin(nv, f, v) == PDegIn(f, v) = 1 /\ JointlyCoprimeZ(nv, CoeffsIn(f, v))
DegSet(f, v, pi, pt) ==
    LET p == BInt(SmallPrimes[pi])  g == MpImage(f, v, [i \in DOMAIN pt |-> BInt(pt[i])], p)
    IN  IF MpDeg(g) = PDegIn(f, v) /\ MpSquarefree(g, p) THEN SumSets(MpDDF(g, p), MpDeg(g)) ELSE 0..PDegIn(f, v)
IrrDeg(nv, f, v, hs) == /\ PDegIn(f, v) >= 1 /\ ContentFree(nv, f, v)
                        /\ FoldLeft(LAMBDA S, h : S \cap DegSet(f, v, h[1], h[2]), 0..PDegIn(f, v), hs) = {0, PDegIn(f, v)}
\* strong pseudoprime to the first twelve prime bases
RECURSIVE TwoAdic(_)
TwoAdic(n) == IF BOdd(n) THEN <<0, n>> ELSE LET t == TwoAdic(BQuo(n, BInt(2))) IN <<t[1] + 1, t[2]>>
IsPrime(q) ==
    /\ BLt(BOne, q)
    /\ \/ \E b \in {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37} : q = BInt(b)
       \/ /\ BOdd(q)
          /\ LET n1 == BSub(q, BOne)  t == TwoAdic(n1)
             IN  \A b \in {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37} :
                    LET x == BPowMod(BInt(b), t[2], q)
                    IN  x = BOne \/ FoldLeft(LAMBDA s, i : IF s[2] THEN s ELSE <<BMod(BMul(s[1], s[1]), q), s[1] = n1>>, <<x, FALSE>>, [i \in 1..t[1] |-> i])[2]
\* the image at an integer point, as coefficients from the constant up
ZImage(f, v, pt) ==
    LET g == FoldLeft(LAMBDA a, i : IF i = v THEN a ELSE PSubst(RZ, a, i, BInt(pt[i])), f, [i \in DOMAIN pt |-> i])
    IN  [k \in 1..(PDegIn(g, v) + 1) |-> LET m == XUnit(Len(pt), v, k - 1) IN IF m \in DOMAIN g THEN g[m] ELSE BZero]
ZEval(g, x) == FoldRight(LAMBDA c, s : BAdd(c, BMul(s, x)), g, BZero)
IrrVal(nv, f, v, pt, k, d) ==
    LET g == ZImage(f, v, pt)
        lc == BAbs(g[Len(g)])
        mx == FoldLeft(LAMBDA a, i : IF BLt(a, BAbs(g[i])) THEN BAbs(g[i]) ELSE a, BZero, [i \in 1..(Len(g) - 1) |-> i])
        H == BAdd(BQuo(mx, lc), BInt(2))               \* every root is smaller than H in absolute value
        val == BAbs(ZEval(g, k))
    IN  /\ Len(g) = PDegIn(f, v) + 1 /\ Len(g) >= 2 /\ lc # BZero
        /\ ContentFree(nv, f, v)
        /\ BLt(BZero, d) /\ BLe(BAdd(H, d), k)
        /\ BRem(val, d) = BZero /\ BLt(d, BQuo(val, d)) /\ IsPrime(BQuo(val, d))
\* cyclotomic polynomials in one variable, exponents <<k>>
RECURSIVE Cyclo(_)
Cyclo(n) == LET xn == [m \in {<<0>>, <<n>>} |-> IF m = <<0>> THEN BInt(-1) ELSE BOne]
            IN  FoldSet(LAMBDA d, a : PExact(RZ, 1, a, Cyclo(d)), xn, {d \in 1..(n - 1) : n % d = 0})
IrrCyc(nv, f, v, n) == LET c == Cyclo(n) IN f = [m \in {XUnit(nv, v, x[1]) : x \in DOMAIN c} |-> c[<<m[v]>>]]

Irr(nv, f, c) == /\ ~ PIsConst(f) /\ NumContent(f) = BOne
                 /\ CASE c[1] = "lin" -> IrrLin(nv, f, c[2])
                      [] c[1] = "deg" -> IrrDeg(nv, f, c[2], c[3])
                      [] c[1] = "val" -> IrrVal(nv, f, c[2], c[3], c[4], c[5])
                      [] c[1] = "cyc" -> IrrCyc(nv, f, c[2], c[3])

\* primitive associate over Q, sign fixed by the lexicographically leading term
ClearDen(p) == LET l == FoldSet(LAMBDA m, a : BQuo(BMul(a, p[m][2]), BGcd(a, p[m][2])), BOne, DOMAIN p)
               IN  [m \in DOMAIN p |-> BMul(p[m][1], BQuo(l, p[m][2]))]
Primitive(p) == LET c == NumContent(p) IN [m \in DOMAIN p |-> BQuo(p[m], c)]
Signed(nv, p) == IF p[LeadMono(LexOrd(nv), p)][1] = -1 THEN PNeg(RZ, p) ELSE p
Assoc(R, nv, p) == Signed(nv, Primitive(IF R.k = "Q" THEN ClearDen(p) ELSE p))

\* the ghost:  f = c * prod g_i^{e_i}, every g_i irreducible
GhostOK(R, nv, f, c, gs) ==
    /\ \A i \in DOMAIN gs : Irr(nv, gs[i].f, gs[i].c) /\ gs[i].e >= 1
    /\ LET P == PProd(RZ, nv, [i \in DOMAIN gs |-> PPow(RZ, nv, gs[i].f, gs[i].e)])
       IN  f = PScale(R, IF R.k = "Q" THEN PMapQ(P) ELSE P, c)
Bag(s) == LET ks == {s[i][1] : i \in DOMAIN s} IN [k \in ks |-> FoldLeft(LAMBDA a, x : IF x[1] = k THEN a + x[2] ELSE a, 0, s)]
\* the answer <<content, << <<factor, multiplicity>>, ... >> >>
FactorOK(R, nv, f, gs, c, fs) ==
    IF PIsZero(f) THEN c = CZero(R) /\ fs = <<>>
    ELSE /\ c # CZero(R)
         /\ \A i \in DOMAIN fs : ~ PIsConst(fs[i][1]) /\ fs[i][2] >= 1
         /\ f = PScale(R, PProd(R, nv, [i \in DOMAIN fs |-> PPow(R, nv, fs[i][1], fs[i][2])]), c)
         /\ LET A == [i \in DOMAIN fs |-> <<Assoc(R, nv, fs[i][1]), fs[i][2]>>]
            IN  /\ \A i, j \in DOMAIN A : i # j => A[i][1] # A[j][1]          \* no two associates
                /\ Bag(A) = Bag([i \in DOMAIN gs |-> <<Signed(nv, gs[i].f), gs[i].e>>])
\* Z/p, dense sequences
FactorPOK(f, p, c, fs) ==
    /\ \A i \in DOMAIN fs : fs[i][2] >= 1 /\ MpLead(fs[i][1]) = BOne /\ MpIrreducible(fs[i][1], p)
    /\ \A i, j \in DOMAIN fs : i # j => fs[i][1] # fs[j][1]
    /\ c = MpLead(f)
    /\ f = MpScale(FoldLeft(LAMBDA a, x : FoldLeft(LAMBDA b, i : MpMul(b, x[1], p), a, [i \in 1..x[2] |-> i]), MpOne, fs), c, p)
=============================================================================
