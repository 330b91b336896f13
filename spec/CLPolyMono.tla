---------------------------- MODULE CLPolyMono ----------------------------
(***************************************************************************)
(* Monomials: exponent tuples under a fixed admissible order.              *)
(***************************************************************************)
EXTENDS Poly, TLC
VARIABLES reg, ord            \* ord = [nv, o]
PutF(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
DropF(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
NV == ord.nv
XFrom(ps) == [i \in 1..NV |-> FoldLeft(LAMBDA s, q : IF q[1] = i THEN s + q[2] ELSE s, 0, ps)]
XGcd(a, b) == [i \in DOMAIN a |-> IF a[i] < b[i] THEN a[i] ELSE b[i]]
XLcm(a, b) == [i \in DOMAIN a |-> IF a[i] < b[i] THEN b[i] ELSE a[i]]
XPow(a, n) == [i \in DOMAIN a |-> n * a[i]]
XBin(k, a, b) == CASE k \in {"mul", "mul3"} -> XMul(a, b) [] k \in {"quo", "divx"} -> XQuo(a, b)
                   [] k = "gcd" -> XGcd(a, b) [] k = "lcm" -> XLcm(a, b)
\* the class's own operator > compares total degrees first, then by variables
XClassGreater(a, b) == XGreater([g |-> TRUE, prec |-> ord.o.prec], a, b)
\* the last occurring variable
XLast(a) == LET i == Max({i \in DOMAIN ord.o.prec : a[ord.o.prec[i]] # 0}) IN ord.o.prec[i]
Pos(v) == CHOOSE i \in DOMAIN ord.o.prec : ord.o.prec[i] = v
=============================================================================
