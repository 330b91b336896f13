---------------------------- MODULE CLPolyPoly ----------------------------
(***************************************************************************)
(* The register machine over polynomial objects.  The state maps every     *)
(* live object to its type (ring R, order o, number of variables nv) and   *)
(* its value p.  Objects that have been moved from leave the domain.       *)
(***************************************************************************)
EXTENDS Poly, TLC
VARIABLE reg

Put(r, n, v) == [x \in (DOMAIN r) \cup {n} |-> IF x = n THEN v ELSE r[x]]
Drop(r, n)   == [x \in (DOMAIN r) \ {n} |-> r[x]]
Has(n) == n \in DOMAIN reg
Obj(R, o, nv, p) == [R |-> R, o |-> o, nv |-> nv, p |-> p]
With(x, p) == [reg[x] EXCEPT !.p = p]
Store(d, v) == reg' = Put(reg, d, v)
P(n) == reg[n].p
SameType(x, y) == reg[x].R = reg[y].R /\ reg[x].o = reg[y].o /\ reg[x].nv = reg[y].nv

\* --------------------------------------------------------- ring operations --
PBinary(k, R, p, q) == CASE k \in {"add", "vadd"} -> PAdd(R, p, q)
                         [] k \in {"sub", "vsub"} -> PSub(R, p, q)
                         [] k \in {"mul", "vmul"} -> PMul(R, p, q)
PUnary(k, R, nv, p, n, c) ==
    CASE k \in {"neg", "ineg"} -> PNeg(R, p)
      [] k \in {"pos", "normal"} -> p
      [] k = "pow" -> PPow(R, nv, p, n)
      [] k \in {"scale", "cscale"} -> PScale(R, p, c)
      [] k \in {"addc", "cadd", "addi", "iadd"} -> PAdd(R, p, PConst(R, nv, c))
      [] k \in {"subc", "subi"} -> PSub(R, p, PConst(R, nv, c))
      [] k \in {"csub", "isub"} -> PSub(R, PConst(R, nv, c), p)
      [] k = "clear" -> PZero
PMonoOp(k, R, p, m) == CASE k \in {"addm", "madd"} -> PAdd(R, p, PMono(R, m, COne(R)))
                         [] k = "subm" -> PSub(R, p, PMono(R, m, COne(R)))
                         [] k = "msub" -> PSub(R, PMono(R, m, COne(R)), p)

\* -------------------------------------------------------------- conversions --
DenLcm(p) == FoldSet(LAMBDA m, a : BLcm(a, p[m][2]), BOne, DOMAIN p)
\* the image of value p of ring R in ring S
Image(R, S, p) ==
    CASE R = S -> p
      [] R.k = "Z" /\ S.k = "Q" -> PMapQ(p)
      [] R.k = "Z" /\ S.k = "P" -> PMod(p, S.p)
      [] R.k = "Q" /\ S.k = "Z" -> LET d == DenLcm(p) IN [m \in DOMAIN p |-> BQuo(BMul(p[m][1], d), p[m][2])]
      [] R.k = "P" /\ S.k = "Z" -> p
\* multivariate in at most one variable -> univariate, and back to variable v of nv
ToU(p) == [e \in {<<XDeg(m)>> : m \in DOMAIN p} |-> p[CHOOSE m \in DOMAIN p : XDeg(m) = e[1]]]
FromU(p, nv, v) == [m \in {XUnit(nv, v, e[1]) : e \in DOMAIN p} |-> p[<<m[v]>>]]

\* ------------------------------------------------------------------ queries --
VarDegs(nv, p) == {<<v, PDegIn(p, v)>> : v \in PVars(nv, p)}
QueryOK(q, x) ==
    LET p == reg[x].p  nv == reg[x].nv  R == reg[x].R
    IN  /\ q.deg = PDegree(p) /\ q.deg2 = q.deg
        /\ q.size = Cardinality(DOMAIN p)
        /\ q.empty = PIsZero(p) /\ q.zc = PIsZero(p) /\ q.num = PIsConst(p)
        /\ "vars" \in DOMAIN q =>
              /\ ToSet(q.vars) = VarDegs(nv, p) /\ Len(q.vars) = Cardinality(PVars(nv, p))
              /\ ToSet(q.vars2) = VarDegs(nv, p) /\ Len(q.vars2) = Cardinality(PVars(nv, p))
              /\ q.degs = [v \in 1..nv |-> PDegIn(p, v)]
        /\ "n" \in DOMAIN q => q.n = IF PIsConst(p) THEN At(R, p, XZero(nv)) ELSE <<>>
\* first and last variable, by precedence, among those occurring
FirstVar(o, nv, p) == LET i == Min({i \in DOMAIN o.prec : o.prec[i] \in PVars(nv, p)}) IN o.prec[i]
LastVar(o, nv, p) == LET i == Max({i \in DOMAIN o.prec : o.prec[i] \in PVars(nv, p)}) IN o.prec[i]

\* ------------------------------------------------- reading printed text back --
\* Tokens: <<"n", integer>>, <<"v", variable index>>, <<"o", character>>.
\* expression = signed {(+|-) signed},  signed = {-} term,  term = factor {* factor | / number},
\* factor = number | variable [^ number]
TextStep(R, nv, s, t) ==
    LET k == t[1]
        flush == PAdd(R, s.sum, PMono(R, s.m, CMul(R, s.c, CInt(R, BInt(s.sg)))))
        fresh(a, sg) == [s EXCEPT !.sum = a, !.sg = sg, !.c = COne(R), !.m = XZero(nv), !.st = "S"]
    IN  IF ~ s.ok THEN s
        ELSE CASE s.st \in {"S", "F"} /\ k = "n" -> [s EXCEPT !.c = CMul(R, s.c, CInt(R, t[2])), !.st = "A"]
               [] s.st \in {"S", "F"} /\ k = "v" -> [s EXCEPT !.v = t[2], !.m = XMul(s.m, XUnit(nv, t[2], 1)), !.st = "V"]
               [] s.st = "S" /\ k = "o" /\ t[2] = "-" -> [s EXCEPT !.sg = -s.sg]
               [] s.st = "V" /\ k = "o" /\ t[2] = "^" -> [s EXCEPT !.st = "E"]
               [] s.st = "E" /\ k = "n" -> [s EXCEPT !.m = XMul(s.m, XUnit(nv, s.v, BToInt(t[2]) - 1)), !.st = "A"]
               [] s.st \in {"A", "V"} /\ k = "o" /\ t[2] = "*" -> [s EXCEPT !.st = "F"]
               [] s.st \in {"A", "V"} /\ k = "o" /\ t[2] = "/" -> [s EXCEPT !.st = "D"]
               [] s.st = "D" /\ k = "n" /\ t[2] # BZero -> [s EXCEPT !.c = CDiv(R, s.c, CInt(R, t[2])), !.st = "A"]
               [] s.st \in {"A", "V"} /\ k = "o" /\ t[2] = "+" -> fresh(flush, 1)
               [] s.st \in {"A", "V"} /\ k = "o" /\ t[2] = "-" -> fresh(flush, -1)
               [] OTHER -> [s EXCEPT !.ok = FALSE]
\* the polynomial denoted by a token sequence, or <<FALSE, ...>>
TextDenotes(R, nv, toks) ==
    LET z == FoldLeft(LAMBDA s, t : TextStep(R, nv, s, t),
                      [ok |-> TRUE, sum |-> PZero, sg |-> 1, c |-> COne(R), m |-> XZero(nv), v |-> 0, st |-> "S"], toks)
    IN  <<z.ok /\ z.st \in {"A", "V"}, PAdd(R, z.sum, PMono(R, z.m, CMul(R, z.c, CInt(R, BInt(z.sg)))))>>
\* the list denoted by  open e , e , ... close  (blanks do not count); NotAList when the text has another form
NotAList == <<<<FALSE, PZero>>>>
TextParts(R, nv, toks, open, close) ==
    LET t == SelectSeq(toks, LAMBDA x : x # <<"o", " ">>)
        n == Len(t)
        cut == SelectSeq([i \in 1..n |-> i], LAMBDA i : t[i] = <<"o", ",">>)
        at == <<1>> \o cut \o <<n>>
    IN  IF n < 2 \/ t[1] # <<"o", open>> \/ t[n] # <<"o", close>> THEN NotAList
        ELSE IF n = 2 THEN <<>>
        ELSE [i \in 1..(Len(at) - 1) |-> TextDenotes(R, nv, SubSeq(t, at[i] + 1, at[i + 1] - 1))]
=============================================================================
