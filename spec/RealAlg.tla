------------------------------ MODULE RealAlg ------------------------------
(***************************************************************************)
(* Real roots of integer polynomials, by Sturm's theorem.                  *)
(* A univariate polynomial is the dense sequence of its coefficients,      *)
(* lowest first, last one nonzero; the zero polynomial is <<>>.            *)
(* A real algebraic number is [p, a, b]: p squarefree, and either a = b is *)
(* a root of p or p has exactly one root in the open interval (a, b).      *)
(***************************************************************************)
EXTENDS Numbers, SequencesExt, FiniteSetsExt

UDeg(f) == Len(f) - 1
ULc(f) == f[Len(f)]
UStrip(f) == LET nz == {i \in DOMAIN f : f[i] # BZero}
             IN  IF nz = {} THEN <<>> ELSE SubSeq(f, 1, Max(nz))
UNeg(f) == [i \in DOMAIN f |-> BNeg(f[i])]
UAt(f, i) == IF i \in DOMAIN f THEN f[i] ELSE BZero
UAdd(f, g) == UStrip([i \in 1..Max({Len(f), Len(g)}) |-> BAdd(UAt(f, i), UAt(g, i))])
UMul(f, g) == IF f = <<>> \/ g = <<>> THEN <<>>
              ELSE [k \in 1..(Len(f) + Len(g) - 1) |->
                      FoldLeft(LAMBDA s, i : BAdd(s, BMul(f[i], g[k + 1 - i])), BZero,
                               [j \in 1..(Min({k, Len(f)}) - Max({1, k + 1 - Len(g)}) + 1) |-> Max({1, k + 1 - Len(g)}) + j - 1])]
UScale(f, c) == UStrip([i \in DOMAIN f |-> BMul(f[i], c)])
UDer(f) == IF Len(f) <= 1 THEN <<>> ELSE UStrip([i \in 1..(Len(f) - 1) |-> BMul(BInt(i), f[i + 1])])
UCont(f) == FoldLeft(LAMBDA g, c : IF g = BOne THEN g ELSE BGcd(g, c), BZero, f)
\* primitive part; the sign is kept
UPrim(f) == IF f = <<>> THEN f ELSE LET c == UCont(f) IN IF c = BOne THEN f ELSE [i \in DOMAIN f |-> BQuo(f[i], c)]
\* f := |lc g| f - sgn(lc g) lc(f) x^d g  while deg f >= deg g: a positive multiple of the remainder
UPremStep(f, g) == IF Len(f) < Len(g) THEN f
                   ELSE LET c == BAbs(ULc(g))
                            e == IF ULc(g)[1] > 0 THEN ULc(f) ELSE BNeg(ULc(f))
                            d == Len(f) - Len(g)
                        IN  UStrip([i \in DOMAIN f |-> IF i > d THEN BSub(BMul(c, f[i]), BMul(e, g[i - d])) ELSE BMul(c, f[i])])
UPrem(f, g) == FoldLeft(LAMBDA h, i : UPremStep(h, g), f, [i \in 1..Max({0, Len(f) - Len(g) + 1}) |-> i])

RECURSIVE UGcdRec(_, _)
UGcdRec(f, g) == IF g = <<>> THEN f ELSE UGcdRec(g, UPrim(UPrem(f, g)))
UPos(f) == IF f # <<>> /\ ULc(f)[1] < 0 THEN UNeg(f) ELSE f
\* greatest common divisor over the rationals, primitive, positive leading coefficient
UGcd(f, g) == UPos(UGcdRec(UPrim(f), UPrim(g)))
\* quotient of primitive polynomials when it is exact
UQuoStep(s, g) == IF Len(s[2]) < Len(g) THEN s
                  ELSE LET c == BQuo(ULc(s[2]), ULc(g))  d == Len(s[2]) - Len(g)
                       IN  << [s[1] EXCEPT ![d + 1] = c],
                              UStrip([i \in DOMAIN s[2] |-> IF i > d THEN BSub(s[2][i], BMul(c, g[i - d])) ELSE s[2][i]]) >>
UQuo(f, g) == IF Len(f) < Len(g) THEN <<>>
              ELSE FoldLeft(LAMBDA s, i : UQuoStep(s, g), << [i \in 1..(Len(f) - Len(g) + 1) |-> BZero], f >>,
                            [i \in 1..(Len(f) - Len(g) + 1) |-> i])[1]
\* squarefree part
USf(f) == IF Len(f) <= 2 THEN UPrim(f) ELSE LET g == UGcd(f, UDer(f)) IN IF Len(g) = 1 THEN UPrim(f) ELSE UQuo(UPrim(f), g)
USquarefree(f) == f # <<>> /\ (Len(f) <= 2 \/ Len(UGcd(f, UDer(f))) = 1)
UCoprime(f, g) == f # <<>> /\ g # <<>> /\ Len(UGcd(f, g)) = 1

\* ---- Sturm ----
RECURSIVE SturmRec(_)
SturmRec(c) == LET n == Len(c)  r == UPrim(UNeg(UPrem(c[n - 1], c[n])))
               IN  IF r = <<>> THEN c ELSE SturmRec(Append(c, r))
\* of a squarefree nonzero f
Sturm(f) == IF Len(f) <= 1 THEN << f >> ELSE SturmRec(<< UPrim(f), UPrim(UDer(f)) >>)
\* sign of f at the rational q
SgnAt(f, q) == IF f = <<>> THEN 0
               ELSE LET n == Len(f)
                    IN  FoldLeft(LAMBDA s, i : << BAdd(BMul(s[1], q[1]), BMul(f[n - i], s[2])), BMul(s[2], q[2]) >>,
                                 << ULc(f), q[2] >>, [i \in 1..(n - 1) |-> i])[1][1]
Variations(s) == FoldLeft(LAMBDA a, x : IF x = 0 THEN a ELSE << x, IF a[1] * x < 0 THEN a[2] + 1 ELSE a[2] >>, << 0, 0 >>, s)[2]
VarAt(c, q) == Variations([i \in DOMAIN c |-> SgnAt(c[i], q)])
VarPosInf(c) == Variations([i \in DOMAIN c |-> ULc(c[i])[1]])
VarNegInf(c) == Variations([i \in DOMAIN c |-> IF UDeg(c[i]) % 2 = 0 THEN ULc(c[i])[1] ELSE - ULc(c[i])[1]])
\* number of distinct real roots (c the Sturm chain of a squarefree polynomial)
RootsAll(c) == VarNegInf(c) - VarPosInf(c)
\* in the open interval (a, b), a < b; in the single point a when a = b
RootsIn(c, a, b) == IF a = b THEN (IF SgnAt(c[1], a) = 0 THEN 1 ELSE 0)
                    ELSE VarAt(c, a) - VarAt(c, b) - (IF SgnAt(c[1], b) = 0 THEN 1 ELSE 0)
HasRoot(f, a, b) == Len(f) > 1 /\ (IF a = b THEN SgnAt(f, a) = 0 ELSE RootsIn(Sturm(USf(f)), a, b) > 0)
\* f has exactly one root in there (f = <<>> has more)
Isolates(f, a, b) == Len(f) > 1 /\ QLe(a, b) /\ (IF a = b THEN SgnAt(f, a) = 0 ELSE RootsIn(Sturm(USf(f)), a, b) = 1)

QMax(a, b) == IF QLt(a, b) THEN b ELSE a
QMin(a, b) == IF QLt(b, a) THEN b ELSE a
\* multiplicity in f of the only root that a squarefree multiple of f has in (a, b) / at a = b
RECURSIVE MultIn(_, _, _)
MultIn(f, a, b) == IF HasRoot(f, a, b) THEN 1 + MultIn(UGcd(f, UDer(f)), a, b) ELSE 0

\* ---- real algebraic numbers ----
IsAlg(x) == USquarefree(x.p) /\ Isolates(x.p, x.a, x.b)
\* the intersection of two isolating sets, <<>> when empty
Meet(a, b, c, d) == IF a = b THEN (IF (c = d /\ a = c) \/ (QLt(c, a) /\ QLt(a, d)) THEN << a, a >> ELSE <<>>)
                    ELSE IF c = d THEN (IF QLt(a, c) /\ QLt(c, b) THEN << c, c >> ELSE <<>>)
                    ELSE LET lo == QMax(a, c)  hi == QMin(b, d) IN IF QLt(lo, hi) THEN << lo, hi >> ELSE <<>>
AlgEq(x, y) == LET m == Meet(x.a, x.b, y.a, y.b)
               IN  m # <<>> /\ HasRoot(UGcd(x.p, y.p), m[1], m[2])
\* halve the isolating interval
Halve(x, c) == IF x.a = x.b THEN x
               ELSE LET m == QMid(x.a, x.b)
                    IN  IF SgnAt(x.p, m) = 0 THEN [x EXCEPT !.a = m, !.b = m]
                        ELSE IF RootsIn(c, x.a, m) = 1 THEN [x EXCEPT !.b = m] ELSE [x EXCEPT !.a = m]
RECURSIVE AlgCmpRec(_, _, _, _)
AlgCmpRec(x, y, c, d) ==
    IF QLe(x.b, y.a) THEN -1          \* unequal numbers: disjoint closed-at-most-in-a-point sets decide
    ELSE IF QLe(y.b, x.a) THEN 1
    ELSE AlgCmpRec(Halve(x, c), Halve(y, d), c, d)
\* -1, 0, 1 as x < y, x = y, x > y
AlgCmp(x, y) == IF AlgEq(x, y) THEN 0 ELSE AlgCmpRec(x, y, Sturm(x.p), Sturm(y.p))
AlgCmpQ(x, q) == IF x.a = x.b THEN QCmp(x.a, q)
                 ELSE IF QLe(q, x.a) THEN 1 ELSE IF QLe(x.b, q) THEN -1
                 ELSE IF SgnAt(x.p, q) = 0 THEN 0
                 ELSE IF RootsIn(Sturm(x.p), x.a, q) = 1 THEN -1 ELSE 1
\* an object holding polynomial f and interval (a, b) denotes x
Denotes(f, a, b, x) == /\ Isolates(f, a, b)
                       /\ AlgEq([p |-> f, a |-> a, b |-> b], x)
=============================================================================
