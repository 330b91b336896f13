---------------------------- MODULE ModPolyCheck ----------------------------
(* Exhaustive laws of ModPoly on small fields; run with and without the    *)
(* Java overrides the results must agree (see ModPolyCheck.cfg).           *)
EXTENDS ModPoly, TLC
CONSTANT P, N
Pb == BInt(P)
Res == {BInt(i) : i \in 0..(P - 1)}
Polys == {MpStrip(s) : s \in UNION {[1..n -> Res] : n \in 0..N}}
VARIABLES a, b
Init == a \in Polys /\ b \in Polys
Next == UNCHANGED <<a, b>>
Pt == <<BInt(2), BInt(3)>>
F2 == [m \in {<<i, j>> : i \in 0..1, j \in 0..2} |-> BInt(1 + m[1] * 5 - 3 * m[2])]
\* a digest of every overridden operator at this state, and laws that tie the operators together
Laws == /\ MpAdd(MpSub(a, b, Pb), b, Pb) = a
        /\ MpMul(a, b, Pb) = MpMul(b, a, Pb)
        /\ MpEval(MpMul(a, b, Pb), BInt(2), Pb) = BMod(BMul(MpEval(a, BInt(2), Pb), MpEval(b, BInt(2), Pb)), Pb)
        /\ b # <<>> => LET q == MpQuo(a, b, Pb)  r == MpRem(a, b, Pb)
                       IN  MpAdd(MpMul(q, b, Pb), r, Pb) = a /\ MpDeg(r) < MpDeg(b)
        /\ (a # <<>> \/ b # <<>>) =>
              LET g == MpGcd(a, b, Pb)
              IN  /\ MpRem(a, g, Pb) = <<>> /\ MpRem(b, g, Pb) = <<>> /\ MpLead(g) = BOne
                  /\ \A c \in Polys : c # <<>> /\ MpRem(a, c, Pb) = <<>> /\ MpRem(b, c, Pb) = <<>> => MpRem(g, c, Pb) = <<>>
        /\ (a # <<>> /\ b # <<>>) => (MpRes(a, b, Pb) = BZero) = (Len(MpGcd(a, b, Pb)) > 1)
        /\ (Len(a) > 1 /\ Len(b) > 0) => MpSubres(a, b, Len(a) - 1, Len(b) - 1, 0, Pb) = MpReduce(<<MpRes(a, b, Pb)>>, Pb)
        /\ MpDeriv(MpMul(a, b, Pb), Pb) = MpAdd(MpMul(MpDeriv(a, Pb), b, Pb), MpMul(a, MpDeriv(b, Pb), Pb), Pb)
        /\ Len(a) > 1 => /\ MpSquarefree(a, Pb) = ~ \E c \in Polys : Len(c) > 1 /\ Len(c) <= Len(a) /\ MpRem(a, MpMul(c, c, Pb), Pb) = <<>>
                         /\ MpIrreducible(a, Pb) = ~ \E c \in Polys : Len(c) > 1 /\ Len(c) < Len(a) /\ MpRem(a, c, Pb) = <<>>
                         /\ MpPowMod(b, BInt(5), a, Pb) = MpRem(MpMul(b, MpMul(MpMul(b, b, Pb), MpMul(b, b, Pb), Pb), Pb), a, Pb)
Show == PrintT("D " \o ToString(<<a, b, MpAdd(a, b, Pb), MpSub(a, b, Pb), MpMul(a, b, Pb), MpScale(a, BInt(4), Pb),
                 IF b = <<>> THEN <<>> ELSE MpDivMod(a, b, Pb), IF a = <<>> /\ b = <<>> THEN <<>> ELSE MpGcd(a, b, Pb),
                 MpRes(a, b, Pb), MpMonic(a, Pb), MpDeriv(a, Pb), MpEval(a, BInt(3), Pb),
                 IF Len(b) < 2 THEN <<>> ELSE MpPowMod(a, BInt(7), b, Pb),
                 IF Len(a) > 1 /\ MpSquarefree(a, Pb) THEN MpDDF(a, Pb) ELSE <<>>,
                 MpImage(F2, 2, Pt, Pb), MpImage(F2, 1, Pt, Pb),
                 [j \in 0..3 |-> [k \in 0..1 |-> IF Len(a) - 1 + k > j /\ Len(b) - 1 >= j THEN MpSubres(a, b, Len(a) - 1 + k, Len(b) - 1, j, Pb) ELSE <<>>]],
                 MpZeros(<<F2, PConst(RZ, 2, MpAt(a, 1))>>, 2, P)>>))
Inv == Laws
ShowInv == Show
=============================================================================
