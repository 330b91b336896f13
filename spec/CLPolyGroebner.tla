--------------------------- MODULE CLPolyGroebner ---------------------------
(***************************************************************************)
(* Groebner bases over a field (integer polynomials: over the rationals,   *)
(* results up to nonzero rational multiples).                              *)
(*                                                                         *)
(* An ideal has exactly one reduced Groebner basis for a given order, so a *)
(* history carries that basis as a ghost with cofactors.  The certificate  *)
(* is checked here and never trusted:  every ghost element is the stated   *)
(* combination of the generators, every generator and every S-polynomial   *)
(* reduces to zero, and the basis is reduced.  Then every question about   *)
(* the ideal has a unique answer.                                          *)
(***************************************************************************)
EXTENDS CLPolyGcd

Fld(R) == IF R.k = "Z" THEN RQ ELSE R
Up(R, p) == IF R.k = "Z" THEN PMapQ(p) ELSE p
Ups(R, s) == [i \in DOMAIN s |-> Up(R, s[i])]
LeadC(o, p) == p[LeadMono(o, p)]
MonicG(R, o, p) == PScale(R, p, CDiv(R, COne(R), LeadC(o, p)))       \* R a field
XLcm(a, b) == [i \in DOMAIN a |-> IF a[i] >= b[i] THEN a[i] ELSE b[i]]
XCoprime(a, b) == \A i \in DOMAIN a : a[i] = 0 \/ b[i] = 0
SPoly(R, o, f, g) ==
    LET m == LeadMono(o, f)  n == LeadMono(o, g)  L == XLcm(m, n)
    IN  PSub(R, PMul(R, PMono(R, XQuo(L, m), COne(R)), MonicG(R, o, f)),
                PMul(R, PMono(R, XQuo(L, n), COne(R)), MonicG(R, o, g)))
\* Buchberger's criterion (coprime leading monomials need no reduction)
IsGB(R, o, B) == \A i, j \in DOMAIN B : i < j =>
                    \/ XCoprime(LeadMono(o, B[i]), LeadMono(o, B[j]))
                    \/ PIsZero(PNF(R, o, SPoly(R, o, B[i], B[j]), B))
\* no term of f is divisible by a leading monomial of G
ReducedBy(o, f, G) == LET L == {LeadMono(o, G[i]) : i \in DOMAIN G}
                      IN  \A m \in DOMAIN f : \A x \in L : ~ XDivides(x, m)
ReducedGB(R, o, B) == \A i \in DOMAIN B : /\ ~ PIsZero(B[i]) /\ LeadC(o, B[i]) = COne(R)
                                          /\ ReducedBy(o, B[i], SubSeq(B, 1, i - 1) \o SubSeq(B, i + 1, Len(B)))
Generates(R, nv, F, B, A) == \A i \in DOMAIN B :
    B[i] = FoldLeft(LAMBDA s, j : PAdd(R, s, PMul(R, A[i][j], F[j])), PZero, [j \in DOMAIN F |-> j])
InIdeal(R, o, B, f) == PIsZero(PNF(R, o, f, B))
\* B is the reduced Groebner basis of the ideal of F  (R a field)
Certified(R, o, nv, F, B, A) == /\ ReducedGB(R, o, B) /\ IsGB(R, o, B)
                                /\ Generates(R, nv, F, B, A)
                                /\ \A j \in DOMAIN F : InIdeal(R, o, B, F[j])

\* f = c g for a nonzero c in the field
Assoc0(R, o, f, g) == IF PIsZero(f) \/ PIsZero(g) THEN PIsZero(f) /\ PIsZero(g) ELSE MonicG(R, o, f) = MonicG(R, o, g)
SameElements(s, t) == /\ Len(s) = Len(t) /\ {s[i] : i \in DOMAIN s} = {t[i] : i \in DOMAIN t}
\* the computed basis is the reduced basis (integers: primitive, positive leading coefficients)
BasisOK(R, o, B, ans) ==
    /\ \A i \in DOMAIN ans : ~ PIsZero(ans[i])
    /\ R.k = "Z" => \A i \in DOMAIN ans : NumContent(ans[i]) = BOne /\ BLt(BZero, LeadC(o, ans[i]))
    /\ SameElements([i \in DOMAIN ans |-> IF R.k = "Z" THEN MonicG(RQ, o, PMapQ(ans[i])) ELSE ans[i]], B)
\* a generating set given in another order, with repetitions, multiples and members of the ideal added
SameIdeal(R, o, F, B, Gs) == /\ \A i \in DOMAIN Gs : InIdeal(R, o, B, Gs[i])
                             /\ \A j \in DOMAIN F : PIsZero(F[j]) \/ \E i \in DOMAIN Gs : Assoc0(R, o, F[j], Gs[i])
\* h is a normal form of f with respect to the list D generating the ideal of B; k: nonzero scalars allowed (integers)
NormalFormOK(R, o, B, D, f, h) ==
    LET K == Fld(R)  g == Up(R, f)  r == Up(R, h)
    IN  /\ ReducedBy(o, h, D)
        /\ ~ PIsZero(h) => ~ PIsZero(f) /\ ~ XGreater(o, LeadMono(o, h), LeadMono(o, f))
        /\ IF R.k = "Z" THEN Assoc0(K, o, PNF(K, o, r, B), PNF(K, o, g, B)) ELSE InIdeal(K, o, B, PSub(K, g, r))
\* the unique remainder modulo the reduced basis
ReduceOK(R, o, B, f, h) == LET n == PNF(Fld(R), o, Up(R, f), B)
                           IN  IF R.k = "Z" THEN Assoc0(RQ, o, PMapQ(h), n) ELSE h = n
SPolyOK(R, o, f, g, s) == LET t == SPoly(Fld(R), o, Up(R, f), Up(R, g))
                          IN  IF R.k = "Z" THEN Assoc0(RQ, o, PMapQ(s), t) ELSE s = t
=============================================================================
