----------------------------- MODULE OrderLaws -----------------------------
(***************************************************************************)
(* The orders of the specification are admissible: checked by TLC for all  *)
(* monomials with exponents up to E in NV variables, every precedence.     *)
(* A state is an order and a triple of monomials.                          *)
(***************************************************************************)
EXTENDS Poly, TLC
CONSTANTS NV, E
VARIABLES o, a, b, c
M == [1..NV -> 0..E]
Precs == {s \in [1..NV -> 1..NV] : \A i, j \in 1..NV : s[i] = s[j] => i = j}
Init == o \in [g : BOOLEAN, prec : Precs] /\ a \in M /\ b \in M /\ c \in M
Next == UNCHANGED <<o, a, b, c>>
Gt(x, y) == XGreater(o, x, y)
Laws == /\ ~ Gt(a, a)
        /\ (a = b) \/ Gt(a, b) \/ Gt(b, a)
        /\ ~ (Gt(a, b) /\ Gt(b, a))
        /\ ((Gt(a, b) /\ Gt(b, c)) => Gt(a, c))
        /\ (Gt(a, b) => Gt(XMul(a, c), XMul(b, c)))
        /\ ~ Gt(XZero(NV), a)
        /\ (XDivides(b, a) <=> \E q \in M : XMul(b, q) = a)
=============================================================================
