----------------------------- MODULE CLPolyElim -----------------------------
(***************************************************************************)
(* Elimination: resultants, subresultants and discriminants (as the        *)
(* determinants that define them), characteristic sets and zero            *)
(* decompositions (as statements about solution sets).                     *)
(*                                                                         *)
(* A determinant identity between polynomials is decided at points: both   *)
(* sides are polynomials in the coefficients, so their images modulo a     *)
(* prime at a point must agree.  Images are taken at several points modulo *)
(* large primes; a false identity survives with negligible probability,    *)
(* a true one always does.                                                 *)
(***************************************************************************)
EXTENDS CLPolyGcd

\* ------------------------------------------------ images over any of the rings --
ResidueOf(R, c, p) == IF R.k = "Q" THEN BMod(BMul(c[1], PInv(BMod(c[2], p), p)), p) ELSE c
UnitDens(R, f, p) == R.k # "Q" \/ \A m \in DOMAIN f : BMod(f[m][2], p) # BZero
Img(R, f, v, pt, p) == MpImage([m \in DOMAIN f |-> ResidueOf(R, f[m], p)], v, pt, p)
\* over Z/p itself the points lie in Z/p
ElimPrime(R, k) == IF R.k = "P" THEN R.p ELSE CertPrimes[k]
\* image of a polynomial without v:  a residue
ImgC(R, f, v, pt, p) == LET g == Img(R, f, v, pt, p) IN IF g = <<>> THEN BZero ELSE g[1]
AtPoints(R, nv, fs, P(_, _)) ==
    \A k \in 1..3 : LET p == ElimPrime(R, k)  pt == CertPt(nv, k, p)
                    IN  (\A f \in fs : UnitDens(R, f, p)) => P(pt, p)

\* ------------------------------------------------------------- resultants ------
ResOK(R, nv, f, g, v, r) ==
    IF PIsZero(f) \/ PIsZero(g) THEN PIsZero(r)
    ELSE LET m == PDegIn(f, v)  n == PDegIn(g, v)
         IN  /\ PDegIn(r, v) = 0
             /\ AtPoints(R, nv, {f, g, r}, LAMBDA pt, p :
                   MpReduce(<<ImgC(R, r, v, pt, p)>>, p) =
                      IF m = 0 /\ n = 0 THEN MpOne ELSE MpSubres(Img(R, f, v, pt, p), Img(R, g, v, pt, p), m, n, 0, p))
\* chain L[1..]:  S_j at L[j+1];  deg_v f >= deg_v g >= 1
SubresOK(R, nv, f, g, v, L) ==
    LET m == PDegIn(f, v)  n == PDegIn(g, v)  u == IF m > n THEN m ELSE m + 1
    IN  /\ Len(L) = u + 1
        /\ L[u + 1] = f /\ L[u] = g
        /\ \A j \in 0..(u - 2) : PDegIn(L[j + 1], v) <= j
        /\ AtPoints(R, nv, {f, g}, LAMBDA pt, p :
              LET F == Img(R, f, v, pt, p)  G == Img(R, g, v, pt, p)
              IN  \A j \in 0..(u - 2) :
                     UnitDens(R, L[j + 1], p) =>
                     Img(R, L[j + 1], v, pt, p) = IF j > n THEN <<>> ELSE MpSubres(F, G, m, n, j, p))
Subres0OK(R, nv, f, g, v, L) == Len(L) = 1 /\ ResOK(R, nv, f, g, v, L[1])
\* lc(f) disc(f) = (-1)^(m(m-1)/2) Res(f, f')
DiscOK(R, nv, f, v, d) ==
    LET m == PDegIn(f, v)
    IN  IF PIsZero(f) \/ m = 0 THEN PIsZero(d)
        ELSE /\ PDegIn(d, v) = 0
             /\ AtPoints(R, nv, {f, d}, LAMBDA pt, p :
                   LET F == Img(R, f, v, pt, p)
                       s == IF ((m * (m - 1)) \div 2) % 2 = 1 THEN BInt(-1) ELSE BOne
                       lc == MpAt(F, m + 1)
                   IN  MpReduce(<<BMul(lc, ImgC(R, d, v, pt, p))>>, p)
                         = MpScale(MpSubres(F, MpDeriv(F, p), m, m - 1, 0, p), s, p))

\* -------------------------------------------------- triangular sets (integer) --
\* prec: the order's variables, greatest first.  The main variable of a nonconstant polynomial is its greatest one.
MainVar(prec, nv, f) == prec[Min({i \in DOMAIN prec : prec[i] \in PVars(nv, f)})]
Pos(prec, v) == CHOOSE i \in DOMAIN prec : prec[i] = v
Init(prec, nv, f) == PLc(f, MainVar(prec, nv, f))
Ascending(prec, nv, C) ==
    /\ \A i \in DOMAIN C : ~ PIsConst(C[i])
    /\ \A i, j \in DOMAIN C : i < j =>
          /\ Pos(prec, MainVar(prec, nv, C[i])) > Pos(prec, MainVar(prec, nv, C[j]))
          /\ PDegIn(C[j], MainVar(prec, nv, C[i])) < PDegIn(C[i], MainVar(prec, nv, C[i]))
Triangular(prec, nv, C) ==
    /\ \A i \in DOMAIN C : ~ PIsConst(C[i])
    /\ \A i, j \in DOMAIN C : i < j => Pos(prec, MainVar(prec, nv, C[i])) > Pos(prec, MainVar(prec, nv, C[j]))
\* successive pseudo-remainders by the last, ..., first member
PremChain(prec, nv, C, f) ==
    FoldRight(LAMBDA c, r : IF PIsZero(r) THEN r ELSE PseudoDiv(RZ, r, c, MainVar(prec, nv, c)).r, C, f)

\* -------------------------------------------------------------- solution sets --
\* exact, at an integer point
ZeroAt(nv, fs, pt) == \A i \in DOMAIN fs : PEval(RZ, nv, fs[i], pt) = BZero
\* the points of (Z/q)^nv, q small
Vq(nv, fs, q) == MpZeros(fs, nv, q)
Inits(prec, nv, T) == [i \in DOMAIN T |-> Init(prec, nv, T[i])]
\* the zeros of T at which none of the polynomials fs vanishes
NonzeroPart(nv, T, fs, q) == FoldLeft(LAMBDA A, f : A \ Vq(nv, Append(T, f), q), Vq(nv, T, q), fs)
ProbePrimes(nv) == CASE nv = 1 -> <<1009, 1013, 1019>> [] nv = 2 -> <<211, 223, 227>> [] nv = 3 -> <<83, 89, 97>> [] OTHER -> <<29, 31, 37>>
\* a statement about solution sets over the rationals' algebraic closure fails modulo every probe prime
\* if it fails at rational points; a single prime may divide some content or denominator
FailsEverywhere(nv, Ok(_)) == \A i \in 1..3 : ~ Ok(ProbePrimes(nv)[i])

\* C is a characteristic set of P
CharsetOK(prec, nv, P, C, pts) ==
    LET Q == SelectSeq(P, LAMBDA f : ~ PIsZero(f))
    IN  IF Q = <<>> THEN TRUE
        ELSE IF Len(C) = 1 /\ PIsConst(C[1])
             THEN /\ ~ PIsZero(C[1])
                  /\ ~ \E i \in DOMAIN pts : ZeroAt(nv, P, pts[i])
                  /\ ~ FailsEverywhere(nv, LAMBDA q : Vq(nv, P, q) = {})
             ELSE /\ C # <<>> /\ Ascending(prec, nv, C)
                  /\ \A i \in DOMAIN P : PIsZero(PremChain(prec, nv, C, P[i]))
                  /\ \A i \in DOMAIN pts : ZeroAt(nv, P, pts[i]) => ZeroAt(nv, C, pts[i])
                  /\ ~ FailsEverywhere(nv, LAMBDA q : Vq(nv, P, q) \subseteq Vq(nv, C, q))
\* D is a sequence of triangular sets;  V(P) = union of V(T) \ V(initials of T)
DecompOK(prec, nv, P, D, pts) ==
    /\ \A k \in DOMAIN D : Triangular(prec, nv, D[k])
    /\ \A i \in DOMAIN pts :
          ZeroAt(nv, P, pts[i]) = \E k \in DOMAIN D : ZeroAt(nv, D[k], pts[i]) /\ \A j \in DOMAIN D[k] : ~ ZeroAt(nv, <<Init(prec, nv, D[k][j])>>, pts[i])
    /\ ~ FailsEverywhere(nv, LAMBDA q :
          Vq(nv, P, q) = UNION {NonzeroPart(nv, D[k], Inits(prec, nv, D[k]), q) : k \in DOMAIN D})
\* the sets D refine the triangular set T: the zeros of T where its initials do not vanish, no more, no fewer
RefineOK(prec, nv, T, D, pts) ==
    LET at(C, x) == ZeroAt(nv, C, x) /\ \A j \in DOMAIN C : ~ ZeroAt(nv, <<Init(prec, nv, C[j])>>, x)
        mod(C, q) == NonzeroPart(nv, C, Inits(prec, nv, C), q)
    IN  /\ \A k \in DOMAIN D : Triangular(prec, nv, D[k])
        /\ \A i \in DOMAIN pts : at(T, pts[i]) = \E k \in DOMAIN D : at(D[k], pts[i])
        /\ ~ FailsEverywhere(nv, LAMBDA q : mod(T, q) = UNION {mod(D[k], q) : k \in DOMAIN D})
\* no zero of T (where its initials do not vanish) is a multiple zero of the second, third, ... member
SimpleZeros(prec, nv, T, q) == \A i \in 2..Len(T) :
    NonzeroPart(nv, Append(T, PDeriv(RZ, T[i], MainVar(prec, nv, T[i]))), Inits(prec, nv, T), q) = {}
SqfreeOK(prec, nv, T, D, pts) ==
    /\ RefineOK(prec, nv, T, D, pts)
    /\ ~ FailsEverywhere(nv, LAMBDA q : \A k \in DOMAIN D : SimpleZeros(prec, nv, D[k], q))
\* every initial is free of zeros on the sets before it.  lin[i]: the linear factors of T[i] / initial (then all zeros are rational)
SplitGhost(nv, prec, T, lin) == \A i \in DOMAIN T : PMul(RZ, Init(prec, nv, T[i]), PProd(RZ, nv, lin[i])) = T[i]
RegularOK(prec, nv, T, lin, res) ==
    LET prefix(i) == SubSeq(T, 1, i - 1)
        bad(q) == \E i \in 2..Len(T) : Vq(nv, Append(prefix(i), Init(prec, nv, T[i])), q) # {}
    IN  /\ Assert(SplitGhost(nv, prec, T, lin), "bad ghost: linear factors")
        /\ ~ FailsEverywhere(nv, LAMBDA q : res = ~ bad(q))
\* systems with conditions: P = 0, N # 0, every g of G told apart.  D[k] = <<T, <<>>, the polynomials nonzero on T, <<>>>>
CondOK(prec, nv, P, G, N, D, pts) ==
    LET T(k) == D[k][1]
        at(k, x) == ZeroAt(nv, T(k), x) /\ \A j \in DOMAIN T(k) : ~ ZeroAt(nv, <<Init(prec, nv, T(k)[j])>>, x)
        mod(k, q) == NonzeroPart(nv, T(k), Inits(prec, nv, T(k)), q)
        has(k, g) == \E j \in DOMAIN D[k][3] : D[k][3][j] = g
    IN  /\ \A k \in DOMAIN D : Len(D[k]) = 4 /\ D[k][2] = <<>> /\ D[k][4] = <<>> /\ Triangular(prec, nv, T(k))
        /\ \A k \in DOMAIN D : \A j \in DOMAIN D[k][3] : \E h \in DOMAIN (G \o N) : (G \o N)[h] = D[k][3][j]
        /\ \A i \in DOMAIN pts :
              LET K == {k \in DOMAIN D : at(k, pts[i])}
              IN  /\ (K # {}) = (ZeroAt(nv, P, pts[i]) /\ \A j \in DOMAIN N : ~ ZeroAt(nv, <<N[j]>>, pts[i]))
                  /\ \A k \in K : \A j \in DOMAIN G : ZeroAt(nv, <<G[j]>>, pts[i]) = ~ has(k, G[j])
        /\ ~ FailsEverywhere(nv, LAMBDA q : UNION {mod(k, q) : k \in DOMAIN D} = NonzeroPart(nv, P, N, q))
        /\ ~ FailsEverywhere(nv, LAMBDA q : \A k \in DOMAIN D : \A j \in DOMAIN G :
                 LET z == mod(k, q) IN IF has(k, G[j]) THEN z \cap Vq(nv, Append(T(k), G[j]), q) = {} ELSE z \subseteq Vq(nv, Append(T(k), G[j]), q))
        /\ ~ FailsEverywhere(nv, LAMBDA q : \A k \in DOMAIN D : SimpleZeros(prec, nv, T(k), q))
\* splitting the zero set of a regular triangular set T by f: W[1] where f vanishes, W[2] where it does not
SplitOK(prec, nv, T, f, W, pts) ==
    LET zq(D, q) == UNION {NonzeroPart(nv, D[k], Inits(prec, nv, D[k]), q) : k \in DOMAIN D}
        zp(D, x) == \E k \in DOMAIN D : ZeroAt(nv, D[k], x) /\ \A j \in DOMAIN D[k] : ~ ZeroAt(nv, <<Init(prec, nv, D[k][j])>>, x)
    IN  /\ \A w \in {1, 2} : \A k \in DOMAIN W[w] : W[w][k] # <<>> /\ Triangular(prec, nv, W[w][k])
        /\ \A i \in DOMAIN pts : /\ zp(W[1], pts[i]) = (ZeroAt(nv, T, pts[i]) /\ ZeroAt(nv, <<f>>, pts[i]))
                                 /\ zp(W[2], pts[i]) = (ZeroAt(nv, T, pts[i]) /\ ~ ZeroAt(nv, <<f>>, pts[i]))
        /\ ~ FailsEverywhere(nv, LAMBDA q : zq(W[1], q) = Vq(nv, Append(T, f), q))
        /\ ~ FailsEverywhere(nv, LAMBDA q : zq(W[2], q) = Vq(nv, T, q) \ Vq(nv, Append(T, f), q))
=============================================================================
