---------------------------- MODULE CLPolyRoots ----------------------------
(***************************************************************************)
(* Real root isolation and the ordering of real algebraic numbers.         *)
(* reg maps the names of live uroot objects to the real numbers they       *)
(* denote: [t |-> "num", p, a, b], or the two infinities.                  *)
(***************************************************************************)
EXTENDS RealAlg
VARIABLE reg

\* the list of isolating sets `iv` (pairs) is increasing, disjoint, one root of h in each, and none is missed
Isolation(h, iv) ==
    LET c == Sturm(h)
    IN  /\ Len(iv) = (IF Len(h) <= 1 THEN 0 ELSE RootsAll(c))
        /\ \A i \in DOMAIN iv : QLe(iv[i][1], iv[i][2]) /\ RootsIn(c, iv[i][1], iv[i][2]) = 1
        /\ \A i \in 2..Len(iv) : /\ QLe(iv[i - 1][2], iv[i][1])
                                 /\ iv[i - 1][2] = iv[i][1] => ~ (iv[i - 1][1] = iv[i - 1][2] /\ iv[i][1] = iv[i][2])
ProdSf(fs) == USf(FoldLeft(LAMBDA a, f : IF f = <<>> THEN a ELSE UMul(a, USf(f)), <<BOne>>, fs))
\* realroot(fs): roots as << poly, l, r, << <<input, multiplicity>>, ... >> >>
RealRootOK(fs, rs) ==
    LET h == ProdSf(fs)
    IN  /\ Isolation(h, [i \in DOMAIN rs |-> << rs[i][2], rs[i][3] >>])
        /\ \A i \in DOMAIN rs :
             /\ HasRoot(UGcd(h, rs[i][1]), rs[i][2], rs[i][3])
             /\ Isolates(rs[i][1], rs[i][2], rs[i][3])
             /\ \A k \in DOMAIN rs[i][4] : rs[i][4][k][1] \in DOMAIN fs
             /\ \A j \in DOMAIN fs :
                  LET ms == {k \in DOMAIN rs[i][4] : rs[i][4][k][1] = j}
                      m == MultIn(fs[j], rs[i][2], rs[i][3])
                  IN  IF m = 0 THEN ms = {} ELSE Cardinality(ms) = 1 /\ rs[i][4][CHOOSE k \in ms : TRUE][2] = m
\* uspensky on one squarefree polynomial / on a list of squarefree coprime ones
UspenskyOK(g, iv) == Isolation(UPrim(g), iv)
UspenskyListOK(gs, iv, ix) ==
    /\ Len(ix) = Len(iv)
    /\ Isolation(ProdSf(gs), iv)
    /\ \A i \in DOMAIN ix : ix[i] \in DOMAIN gs /\ HasRoot(gs[ix[i]], iv[i][1], iv[i][2])
BoundOK(g, B) == IF Len(g) <= 1 THEN TRUE ELSE LET c == Sturm(USf(g)) IN RootsIn(c, <<BNeg(B), BOne>>, <<B, BOne>>) = RootsAll(c)

\* ---- the coordinate changes used by the bisection ----
UPowSeq(f, n) == FoldLeft(LAMBDA a, i : UMul(a, f), <<BOne>>, [i \in 1..n |-> i])
\* sum of f_i u^i w^(m-i)
UHom(f, u, w) == LET m == UDeg(f)
                 IN  FoldLeft(LAMBDA s, i : UAdd(s, UScale(UMul(UPowSeq(u, i - 1), UPowSeq(w, m - i + 1)), f[i])), <<>>, [i \in DOMAIN f |-> i])
UX == << BZero, BOne >>
UX1 == << BOne, BOne >>
TransformOf(k, f, B, a, b) ==
    CASE k = "1toinf" -> UHom(f, <<BOne>>, UX1)
      [] k = "Bto1" -> UStrip(UHom(f, UScale(UX, B), <<BOne>>))
      [] k = "01to012" -> UHom(f, UX, <<BInt(2)>>)
      [] k = "01to121" -> UHom(f, UX1, <<BInt(2)>>)
      [] k = "Rtoab" -> IF Len(f) <= 1 THEN f
                        ELSE LET d == BLcm(a[2], b[2]) IN UHom(f, UStrip(<< BQuo(BMul(b[1], d), b[2]), BQuo(BMul(a[1], d), a[2]) >>), << d, d >>)

\* ---- registers ----
Num(p, a, b) == [t |-> "num", p |-> p, a |-> a, b |-> b]
Bind(n, x) == reg' = [k \in DOMAIN reg \cup {n} |-> IF k = n THEN x ELSE reg[k]]
Inf(s) == [t |-> IF s > 0 THEN "inf" ELSE "neginf"]
Rank(x) == IF x.t = "inf" THEN 1 ELSE IF x.t = "neginf" THEN -1 ELSE 0
Order(x, y) == IF x.t = "num" /\ y.t = "num" THEN AlgCmp(x, y)
               ELSE IF Rank(x) < Rank(y) THEN -1 ELSE IF Rank(x) > Rank(y) THEN 1 ELSE 0
OrderQ(x, q) == IF x.t = "num" THEN AlgCmpQ(x, q) ELSE Rank(x)
\* what each relational operation answers when the order is c; comp answers 1 for "less"
Answer(k, c) == CASE k = "comp" -> -c
                  [] k = "lt" -> c < 0 [] k = "gt" -> c > 0 [] k = "le" -> c <= 0
                  [] k = "ge" -> c >= 0 [] k = "eq" -> c = 0 [] k = "ne" -> c # 0
\* an observed object
ObjOK(o, x) == IF x.t = "num" THEN o.t = "num" /\ Denotes(o.p, o.a, o.b, x) ELSE o.t = x.t
=============================================================================
