----------------------------- MODULE PolyCheck -----------------------------
(* Laws of Poly.tla on all small polynomials in two variables over ZZ, QQ  *)
(* and Z/5, and a digest of every overridden operator (see models.py).     *)
EXTENDS Poly, TLC
CONSTANT Kind, Size
Q(n, d) == QMk(BInt(n), BInt(d))
R == CASE Kind = "Z" -> RZ [] Kind = "Q" -> RQ [] Kind = "P" -> RP(BInt(5))
Coefs == CASE Kind = "Z" -> {BInt(-2), BInt(1), BInt(3)} [] Kind = "Q" -> {Q(-2, 1), Q(1, 2), Q(3, 1)} [] Kind = "P" -> {BInt(1), BInt(3), BInt(4)}
Monos == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 0>>, <<1, 1>>}
Polys == {p \in UNION {[S -> Coefs] : S \in SUBSET Monos} : Cardinality(DOMAIN p) <= Size}
Orders == {[g |-> TRUE, prec |-> <<1, 2>>], [g |-> FALSE, prec |-> <<2, 1>>]}
VARIABLES a, b
Init == a \in Polys /\ b \in Polys
Next == UNCHANGED <<a, b>>
C2 == CASE Kind = "Q" -> Q(-3, 2) [] OTHER -> BInt(2)
Ev(p) == PEval(R, 2, p, <<C2, CInt(R, BInt(3))>>)
Terms(p) == SetToSeq({<<m, p[m]>> : m \in DOMAIN p})
Laws == /\ PSub(R, PAdd(R, a, b), b) = a
        /\ PMul(R, a, b) = PMul(R, b, a)
        /\ PMul(R, a, PAdd(R, a, b)) = PAdd(R, PMul(R, a, a), PMul(R, a, b))
        /\ PPow(R, 2, a, 2) = PMul(R, a, a)
        /\ Ev(PMul(R, a, b)) = CMul(R, Ev(a), Ev(b)) /\ Ev(PAdd(R, a, b)) = CAdd(R, Ev(a), Ev(b))
        /\ PFromTerms(R, Terms(a) \o Terms(b)) = PAdd(R, a, b)
        /\ \A v \in 1..2 : PDeriv(R, PMul(R, a, b), v) = PAdd(R, PMul(R, PDeriv(R, a, v), b), PMul(R, a, PDeriv(R, b, v)))
        /\ PEuler(R, a, 1, BOne) = PMul(R, PDeriv(R, a, 1), PMono(R, <<1, 0>>, COne(R)))
        /\ ~ PIsZero(b) =>
              /\ PDivExact(R, 2, PMul(R, a, b), b) = <<TRUE, a>>
              /\ LET d == PDivExact(R, 2, a, b) IN d[1] => PMul(R, d[2], b) = a
              /\ \A o \in Orders : PIsZero(a) \/ LeadMono(o, PMul(R, a, b)) = XMul(LeadMono(o, a), LeadMono(o, b))
              /\ \A v \in 1..2 : LET w == PseudoFull(R, 2, a, b, v)
                                 IN  /\ PMul(R, a, PPow(R, 2, PLc(b, v), w.k)) = PAdd(R, PMul(R, w.q, b), w.r)
                                     /\ PIsZero(w.r) \/ PDegIn(w.r, v) < PDegIn(b, v)
              /\ Kind # "Z" => \A o \in Orders : LET r == PNF(R, o, a, <<b>>)
                                                 IN  Reduced(R, o, r, b) /\ PDivides(R, 2, b, PSub(R, a, r))
Show == PrintT("D " \o ToString(<<a, b, PAdd(R, a, b), PMul(R, a, b), PScale(R, a, C2), PPow(R, 2, a, 3),
            PFromTerms(R, Terms(a) \o Terms(b)), PVal(Terms(a)), PSubst(R, a, 1, C2), PSubst(R, b, 2, C2),
            IF PIsZero(b) THEN <<>> ELSE <<PDivExact(R, 2, a, b), PDivExact(R, 2, PMul(R, a, b), b)>>,
            IF PIsZero(b) \/ Kind = "Z" THEN <<>>
            ELSE [o \in Orders |-> <<PNF(R, o, a, <<b>>), PNF(R, o, PMul(R, a, a), <<b, PAdd(R, b, PConst(R, 2, COne(R)))>>)>>]>>))
ShowOK == ~ PIsZero(PAdd(R, b, PConst(R, 2, COne(R)))) => Show
Inv == Laws
ShowInv == ShowOK
=============================================================================
