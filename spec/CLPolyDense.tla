---------------------------- MODULE CLPolyDense ----------------------------
(***************************************************************************)
(* Dense univariate polynomials over a prime field (dense_upoly_zp).       *)
(*                                                                         *)
(* The state is a file of registers, each holding a modulus (0: none) and  *)
(* the coefficient sequence of an element of Z/p[x] in the form of module  *)
(* ModPoly.  Operations name their result registers and their operands,    *)
(* which may coincide.  A greatest common divisor is unique up to a unit:  *)
(* the register takes any associate of it.  Nothing else is free, so the   *)
(* algorithm used for an operation (schoolbook, Karatsuba, Euclid,         *)
(* half-gcd) cannot show.                                                  *)
(***************************************************************************)
EXTENDS ModPoly
Regs == 0..5
Nothing == [p |-> BZero, c |-> <<>>]
DEmpty == [r \in Regs |-> Nothing]
DVal(p, c) == [p |-> p, c |-> c]
\* an observed object <<p, c>> is a value of the type
DShape(x) == BWellFormed(x[1]) /\ (x[1] # BZero \/ x[2] = <<>>) /\ MpWellFormed(x[2], x[1])
DObs(x) == DVal(x[1], x[2])
DAdd(x, y) == DVal(x.p, MpAdd(x.c, y.c, x.p))
DSub(x, y) == DVal(x.p, MpSub(x.c, y.c, x.p))
DMul(x, y) == DVal(x.p, MpMul(x.c, y.c, x.p))
DScale(x, k) == DVal(x.p, MpScale(x.c, k, x.p))
DDivRem(x, y) == LET d == MpDivMod(x.c, y.c, x.p) IN <<DVal(x.p, d[1]), DVal(x.p, d[2])>>
\* g is an associate of gcd(x, y)
DIsGcd(g, x, y) == g.p = x.p /\ MpMonic(g.c, x.p) = MpGcd(x.c, y.c, x.p)
\* the terms <<e, c, p>>, highest first, of the sparse form
DSparse(x) == LET S == {i \in DOMAIN x.c : x.c[i] # BZero}
                  I == SetToSortSeq(S, LAMBDA i, j : i > j)
              IN  [k \in DOMAIN I |-> <<I[k] - 1, x.c[I[k]], x.p>>]
=============================================================================
