----------------------------- MODULE CLPolyGcd -----------------------------
(***************************************************************************)
(* What gcd, extended gcd, content, primitive part and the squarefree      *)
(* decompositions may answer.  Each is a relation between the operands     *)
(* (given by the history) and the observed answer.                         *)
(***************************************************************************)
EXTENDS ModPoly

\* ---- several polynomials at once ----
\* the polynomials of the sequence s have no common factor of positive degree in v
JointlyCoprimeIn(nv, s, v) ==
    \E k \in Tries :
       LET p == CertPrimes[k]  pt == CertPt(nv, k, p)
           im == [i \in DOMAIN s |-> MpImage(s[i], v, pt, p)]
       IN  /\ \E i \in DOMAIN s : MpDeg(im[i]) = PDegIn(s[i], v) /\ im[i] # <<>>
           /\ Len(FoldLeft(LAMBDA a, b : IF b = <<>> THEN a ELSE IF a = <<>> THEN b ELSE MpGcd(a, b, p), <<>>, im)) = 1
JointlyCoprimeZ(nv, s) ==
    /\ FoldLeft(LAMBDA a, f : BGcd(a, NumContent(f)), BZero, s) = BOne
    /\ \A v \in 1..nv : (\A i \in DOMAIN s : v \in PVars(nv, s[i])) => JointlyCoprimeIn(nv, s, v)
\* h is a gcd of the nonzero polynomials of s
GcdOfOK(nv, s, h) == /\ ~ PIsZero(h)
                     /\ LET q == [i \in DOMAIN s |-> PDivExact(RZ, nv, s[i], h)]
                        IN  (\A i \in DOMAIN s : q[i][1]) /\ JointlyCoprimeZ(nv, [i \in DOMAIN s |-> q[i][2]])

FirstVarOf(o, nv, ps) == LET i == Min({i \in DOMAIN o.prec : \E p \in ps : o.prec[i] \in PVars(nv, p)}) IN o.prec[i]
CoeffsIn(f, v) == LET ds == {m[v] : m \in DOMAIN f} IN [i \in DOMAIN SetToSeq(ds) |-> PCoeff(f, v, SetToSeq(ds)[i])]
\* content with respect to the leading variable of the order
ContOK(o, nv, f, c) == IF PIsConst(f) THEN c = f \/ c = PNeg(RZ, f)
                       ELSE GcdOfOK(nv, CoeffsIn(f, FirstVarOf(o, nv, {f})), c)
PpOK(o, nv, f, q) == IF PIsConst(f) THEN PUnit(q)
                     ELSE LET c == PDivExact(RZ, nv, f, q) IN ~ PIsZero(q) /\ c[1] /\ ContOK(o, nv, f, c[2])
\* ---- extended gcd ----
\* over Z the Euclidean steps are pseudo-divisions: the answer is a combination s f + t g, and
\* a gcd times a factor free of the main variable v
XgcdOK(nv, vs, f, g, r, s, t) ==
    /\ PAdd(RZ, PMul(RZ, s, f), PMul(RZ, t, g)) = r
    /\ IF PIsZero(f) /\ PIsZero(g) THEN PIsZero(r)
       ELSE /\ ~ PIsZero(r)
            /\ \E v \in vs : PDegIn(f, v) > 0 \/ PDegIn(g, v) > 0 =>
               \* the gcd divides r, and r divides a v-free multiple of it
               LET RemV(h) == IF PIsZero(h) THEN PZero ELSE PseudoFull(RZ, nv, h, r, v).r
               IN  IF PDegIn(r, v) = 0 THEN \E k \in Tries :
                        LET p == CertPrimes[k]  pt == CertPt(nv, k, p)
                            A == MpImage(f, v, pt, p)  B == MpImage(g, v, pt, p)
                        IN  (MpDeg(A) = PDegIn(f, v) \/ MpDeg(B) = PDegIn(g, v)) /\ Len(MpGcd(A, B, p)) = 1
                   ELSE PIsZero(RemV(f)) /\ PIsZero(RemV(g))
\* over Z/p: dense sequences
Dense(p) == IF PIsZero(p) THEN <<>> ELSE [i \in 1..(PDegIn(p, 1) + 1) |-> At(RP(BInt(2)), p, <<i - 1>>)]
XgcdPOK(f, g, r, s, t, p) == /\ r = MpGcd(f, g, p)
                             /\ MpAdd(MpMul(s, f, p), MpMul(t, g, p), p) = r
\* ---- squarefree ----
PairwiseCoprime(nv, s) == \A i \in DOMAIN s : \A j \in 1..(i - 1) : CoprimeQ(nv, s[i], s[j])
SqffOK(nv, f, fs) ==
    IF PIsZero(f) THEN fs = <<>>
    ELSE /\ fs # <<>>
         /\ PProd(RZ, nv, [i \in DOMAIN fs |-> PPow(RZ, nv, fs[i][1], fs[i][2])]) = f
         /\ \A i \in DOMAIN fs : fs[i][2] >= 1 /\ (i > 1 => ~ PIsConst(fs[i][1]) /\ SquarefreeQ(nv, fs[i][1]))
         /\ PIsConst(fs[1][1])
         /\ PairwiseCoprime(nv, [i \in DOMAIN fs |-> fs[i][1]])
\* basis L; I[k] lists <<input, exponent>>
SqfbOK(nv, fs, L, I) ==
    /\ Len(L) = Len(I)
    /\ \A k \in DOMAIN L : ~ PIsConst(L[k]) /\ SquarefreeQ(nv, L[k])
    /\ PairwiseCoprime(nv, L)
    /\ \A k \in DOMAIN I : \A x \in DOMAIN I[k] : I[k][x][1] \in DOMAIN fs /\ I[k][x][2] >= 1
                              /\ \A y \in 1..(x - 1) : I[k][x][1] # I[k][y][1]
    /\ \A i \in DOMAIN fs :
          ~ PIsZero(fs[i]) =>
          LET fac(k) == FoldLeft(LAMBDA a, e : IF e[1] = i THEN PMul(RZ, a, PPow(RZ, nv, L[k], e[2])) ELSE a, PConst(RZ, nv, BOne), I[k])
              prod == PProd(RZ, nv, [k \in DOMAIN L |-> fac(k)])
              a == PScale(RZ, fs[i], NumContent(prod))  b == PScale(RZ, prod, NumContent(fs[i]))
          IN  a = b \/ a = PNeg(RZ, b)
=============================================================================
