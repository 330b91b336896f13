------------------------------ MODULE ModPoly ------------------------------
(***************************************************************************)
(* Dense univariate polynomials over Z/p (p a prime, a BigInt), as         *)
(* sequences of residues from the constant term up, last one nonzero;      *)
(* and images of integer polynomials of module Poly in Z/p[x].             *)
(*                                                                         *)
(* Images carry rigorous certificates about integer polynomials: if the    *)
(* leading coefficient survives and the images are coprime (squarefree,    *)
(* irreducible), then so are the polynomials, as far as factors involving  *)
(* the main variable go.                                                   *)
(*                                                                         *)
(* Operators marked (J) are overridden by ModPoly.java for speed only;     *)
(* ModPolyCheck.tla compares override and definition.                      *)
(***************************************************************************)
EXTENDS Poly

RECURSIVE MpStrip(_)
MpStrip(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = BZero THEN MpStrip(SubSeq(a, 1, Len(a) - 1)) ELSE a   \* (J)
MpAt(a, i) == IF i \in DOMAIN a THEN a[i] ELSE BZero
MpDeg(a) == Len(a) - 1                                  \* -1 for zero
MpLead(a) == a[Len(a)]
MpOne == <<BOne>>
MpX == <<BZero, BOne>>
MpReduce(s, p) == MpStrip([i \in DOMAIN s |-> BMod(s[i], p)])                                    \* (J)
MpWellFormed(a, p) == /\ \A i \in DOMAIN a : BWellFormed(a[i]) /\ BLe(BZero, a[i]) /\ BLt(a[i], p)
                      /\ a # <<>> => a[Len(a)] # BZero
MaxLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
MpAdd(a, b, p) == MpReduce([i \in 1..MaxLen(a, b) |-> BAdd(MpAt(a, i), MpAt(b, i))], p)          \* (J)
MpSub(a, b, p) == MpReduce([i \in 1..MaxLen(a, b) |-> BSub(MpAt(a, i), MpAt(b, i))], p)          \* (J)
MpScale(a, c, p) == MpReduce([i \in DOMAIN a |-> BMul(a[i], c)], p)                              \* (J)
MpMul(a, b, p) ==                                                                                \* (J)
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE MpReduce([k \in 1..(Len(a) + Len(b) - 1) |->
             FoldLeft(LAMBDA s, i : BAdd(s, BMul(MpAt(a, i), MpAt(b, k + 1 - i))), BZero, [i \in 1..k |-> i])], p)
MpShift(a, n) == IF a = <<>> THEN a ELSE [i \in 1..n |-> BZero] \o a
\* quotient and remainder, b # 0                                           (J)
RECURSIVE MpDivStep(_, _, _, _, _)
MpDivStep(q, r, b, li, p) ==
    IF Len(r) < Len(b) THEN <<q, r>>
    ELSE LET t == MpShift(<<BMod(BMul(MpLead(r), li), p)>>, Len(r) - Len(b))
         IN  MpDivStep(MpAdd(q, t, p), MpSub(r, MpMul(t, b, p), p), b, li, p)
MpDivMod(a, b, p) == MpDivStep(<<>>, a, b, PInv(MpLead(b), p), p)                                \* (J)
MpQuo(a, b, p) == MpDivMod(a, b, p)[1]
MpRem(a, b, p) == MpDivMod(a, b, p)[2]
MpMonic(a, p) == IF a = <<>> THEN a ELSE MpScale(a, PInv(MpLead(a), p), p)                       \* (J)
RECURSIVE MpGcdRec(_, _, _)
MpGcdRec(a, b, p) == IF b = <<>> THEN a ELSE MpGcdRec(b, MpRem(a, b, p), p)
MpGcd(a, b, p) == MpMonic(MpGcdRec(a, b, p), p)                                                  \* (J)
MpDeriv(a, p) == IF a = <<>> THEN a ELSE MpReduce([i \in 1..(Len(a) - 1) |-> BMul(BInt(i), a[i + 1])], p)   \* (J)
MpEval(a, x, p) == FoldRight(LAMBDA c, s : BMod(BAdd(c, BMul(s, x)), p), a, BZero)               \* (J)
\* a^n mod m, n >= 0 a BigInt, deg m >= 1                                  (J)
RECURSIVE MpPowMod(_, _, _, _)
MpPowMod(a, n, m, p) == IF n = BZero THEN MpRem(MpOne, m, p)
                        ELSE LET h == MpPowMod(a, BQuo(n, BInt(2)), m, p)
                                 s == MpRem(MpMul(h, h, p), m, p)
                             IN  IF BOdd(n) THEN MpRem(MpMul(s, a, p), m, p) ELSE s
\* resultant by Euclid: Res(a,b), both nonzero                             (J)
RECURSIVE MpRes(_, _, _)
MpRes(a, b, p) ==
    IF a = <<>> \/ b = <<>> THEN BZero
    ELSE IF Len(b) = 1 THEN BPowMod(b[1], BInt(MpDeg(a)), p)
    ELSE LET r == MpRem(a, b, p)
             s == IF (MpDeg(a) * MpDeg(b)) % 2 = 1 THEN BInt(-1) ELSE BOne
         IN  IF r = <<>> THEN BZero
             ELSE BMod(BMul(s, BMul(BPowMod(MpLead(b), BInt(MpDeg(a) - MpDeg(r)), p), MpRes(b, r, p))), p)
\* determinant by expansion along the first column                          (J through MpSubres)
RECURSIVE MpDet(_, _, _, _)
MpDet(M(_, _), rows, cols, p) ==
    IF rows = <<>> THEN BOne
    ELSE FoldLeft(LAMBDA s, i :
             LET c == M(rows[i], cols[1])
             IN  IF c = BZero THEN s
                 ELSE LET t == BMul(c, MpDet(M, SubSeq(rows, 1, i - 1) \o SubSeq(rows, i + 1, Len(rows)), Tail(cols), p))
                      IN  BMod(IF i % 2 = 1 THEN BAdd(s, t) ELSE BSub(s, t), p),
             BZero, [i \in DOMAIN rows |-> i])
\* j-th subresultant of f and g taken as polynomials of formal degrees m and n (j <= min(m, n), j < m or j < n):
\* the determinant polynomial of the rows x^(n-j-1) f, ..., f, x^(m-j-1) g, ..., g                     (J)
MpSubres(f, g, m, n, j, p) ==
    LET N == m + n - 2 * j
        entry(r, d) == IF r <= n - j THEN MpAt(f, d - (n - j - r) + 1) ELSE MpAt(g, d - (m - j - (r - (n - j))) + 1)
        col(k) == [c \in 1..N |-> IF c < N THEN m + n - j - c ELSE k]
    IN  MpReduce([k \in 1..(j + 1) |-> MpDet(entry, [i \in 1..N |-> i], col(k - 1), p)], p)
MpSquarefree(f, p) == LET d == MpDeriv(f, p) IN Len(f) = 1 \/ (d # <<>> /\ Len(MpGcd(f, d, p)) = 1)
\* number of irreducible factors of each degree of a squarefree f, as a sequence   (J)
RECURSIVE MpDDFFrom(_, _, _, _, _)
MpDDFFrom(f, h, k, acc, p) ==      \* h = x^(p^(k-1)) mod f
    IF Len(f) = 1 THEN acc
    ELSE LET h2 == MpPowMod(h, p, f, p)
             g == MpGcd(MpSub(h2, MpX, p), f, p)
             f2 == IF Len(g) > 1 THEN MpQuo(f, g, p) ELSE f
         IN  MpDDFFrom(f2, IF Len(f2) = 1 THEN <<>> ELSE MpRem(h2, f2, p), k + 1, Append(acc, MpDeg(g) \div k), p)
MpDDF(f, p) == IF Len(f) = 1 THEN <<>> ELSE MpDDFFrom(MpMonic(f, p), MpRem(MpX, MpMonic(f, p), p), 1, <<>>, p)
MpIrreducible(f, p) == /\ Len(f) >= 2 /\ MpSquarefree(f, p)
                       /\ LET d == MpDDF(f, p) IN Len(d) = MpDeg(f) /\ d[Len(d)] = 1

\* ------------------------------------------- images of integer polynomials --
\* f in Z[x_1..x_nv] as a polynomial in x_v with x_i = pt[i] for i # v, modulo p    (J)
MpImage(f, v, pt, p) ==
    LET term(m) == FoldLeft(LAMBDA c, i : IF i = v THEN c ELSE BMod(BMul(c, BPowMod(pt[i], BInt(m[i]), p)), p),
                            BMod(f[m], p), [i \in DOMAIN m |-> i])
        d == PDegIn(f, v)
    IN  MpStrip([k \in 1..(d + 1) |->
           FoldSet(LAMBDA m, s : IF m[v] = k - 1 THEN BMod(BAdd(s, term(m)), p) ELSE s, BZero, DOMAIN f)])
\* value of f at a point modulo p
\* common zeros in (Z/q)^n of the integer polynomials fs, q a small prime as a TLC integer       (J)
MpZeros(fs, n, q) == {pt \in [1..n -> 0..(q - 1)] :
                         \A i \in DOMAIN fs : LET w == [k \in 1..n |-> BInt(pt[k])] IN MpEval(MpImage(fs[i], 1, w, BInt(q)), w[1], BInt(q)) = BZero}
MpValue(f, pt, p) == MpEval(MpImage(f, 1, pt, p), pt[1], p)

\* a fixed supply of large primes and evaluation points
CertPrimes == << <<1, 3647, 4748, 21>>, <<1, 3629, 4748, 21>>, <<1, 3587, 4748, 21>>, <<1, 3579, 4748, 21>>,
                 <<1, 3563, 4748, 21>>, <<1, 3549, 4748, 21>>, <<1, 3543, 4748, 21>>, <<1, 3497, 4748, 21>> >>
CertPt(nv, k, p) == [i \in 1..nv |-> BPowMod(BInt(7 + 12 * k), BInt(1000 + 37 * i + k), p)]
Tries == 1..8

CoprimeIn(nv, a, b, v) ==
    \E k \in Tries :
       LET p == CertPrimes[k]  pt == CertPt(nv, k, p)
           A == MpImage(a, v, pt, p)  B == MpImage(b, v, pt, p)
       IN  /\ (MpDeg(A) = PDegIn(a, v) \/ MpDeg(B) = PDegIn(b, v))
           /\ A # <<>> /\ B # <<>> /\ Len(MpGcd(A, B, p)) = 1
NumContent(p) == FoldSet(LAMBDA m, a : BGcd(a, p[m]), BZero, DOMAIN p)
\* no common factor of positive degree
CoprimeQ(nv, a, b) == \A v \in PVars(nv, a) \cap PVars(nv, b) : CoprimeIn(nv, a, b, v)
\* no common factor but units of Z[x]
PUnit(p) == PIsConst(p) /\ ~ PIsZero(p) /\ \A m \in DOMAIN p : BAbs(p[m]) = BOne
CoprimeZ(nv, a, b) == IF PIsZero(a) THEN PUnit(b) ELSE IF PIsZero(b) THEN PUnit(a)
                      ELSE BGcd(NumContent(a), NumContent(b)) = BOne /\ CoprimeQ(nv, a, b)
\* h is a greatest common divisor of f and g in Z[x_1..x_nv]
GcdOK(nv, f, g, h) == IF PIsZero(f) /\ PIsZero(g) THEN PIsZero(h)
                      ELSE /\ ~ PIsZero(h)
                           /\ LET a == PDivExact(RZ, nv, f, h)  b == PDivExact(RZ, nv, g, h)
                              IN  a[1] /\ b[1] /\ CoprimeZ(nv, a[2], b[2])
\* no repeated factor of positive degree
SquarefreeIn(nv, f, v) ==
    \E k \in Tries : LET p == CertPrimes[k]  A == MpImage(f, v, CertPt(nv, k, p), p)
                     IN  MpDeg(A) = PDegIn(f, v) /\ MpSquarefree(A, p)
SquarefreeQ(nv, f) == \A v \in PVars(nv, f) : SquarefreeIn(nv, f, v)
=============================================================================
