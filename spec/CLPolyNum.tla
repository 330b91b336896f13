---------------------------- MODULE CLPolyNum ----------------------------
(***************************************************************************)
(* The register machine over ZZ and QQ objects: the state is what each     *)
(* live object holds; the actions are the public operations.  Objects that *)
(* have been moved from are no longer constrained and leave the domain.    *)
(***************************************************************************)
EXTENDS Numbers, TLC
VARIABLE reg            \* register name -> ZZ or QQ value

Put(r, n, v) == [x \in (DOMAIN r) \cup {n} |-> IF x = n THEN v ELSE r[x]]
Drop(r, n)   == [x \in (DOMAIN r) \ {n} |-> r[x]]
Has(n) == n \in DOMAIN reg

NumReset == reg' = <<>>
Store(d, v) == reg' = Put(reg, d, v)
\* ---- ZZ ----
ZZBinary(op, d, x, y) == /\ Has(x) /\ Has(y)
                         /\ op \in ZZDivOps => reg[y] # BZero
                         /\ Store(d, ZZBin(op, reg[x], reg[y]))
DivByZero(y, zero) == Has(y) /\ reg[y] = zero /\ UNCHANGED reg      \* reported, nothing changes
ZZFdivQR(d, r, x, y) == /\ reg[y] # BZero
                        /\ reg' = Put(Put(reg, d, BFloorDiv(reg[x], reg[y])),
                                      r, BFloorRem(reg[x], reg[y]))
ZZAddMul(d, x, y) == Store(d, BAdd(reg[d], BMul(reg[x], reg[y])))
ZZSubMul(d, x, y) == Store(d, BSub(reg[d], BMul(reg[x], reg[y])))
ZZInvertible(x, m) == BGcd(reg[x], reg[m]) = BOne
\* 0 <= inverse < |m|  and  x * inverse = 1 (mod m)
ZZInvertOK(x, m, v) == /\ BLe(BZero, v) /\ BLt(v, BAbs(reg[m]))
                       /\ BMod(BSub(BMul(v, reg[x]), BOne), BAbs(reg[m])) = BZero
Copy(d, x) == Store(d, reg[x])
MoveTo(d, x) == reg' = IF d = x THEN reg ELSE Drop(Put(reg, d, reg[x]), x)
SwapRegs(x, y) == reg' = [reg EXCEPT ![x] = reg[y], ![y] = reg[x]]
ZZQuery(a) == [ sgn |-> BSgn(a), sgn2 |-> BSgn(a), zero |-> a = BZero, one |-> a = BOne,
                odd |-> BOdd(a), bool |-> a # BZero, bits |-> BBits(a), zc |-> a = BZero ]
QQQuery(a) == [ sgn |-> QSgn(a), zero |-> a = QZero, bool |-> a # QZero, zc |-> a = QZero,
                n |-> a[1], d |-> a[2],
                text |-> IF a[2] = BOne THEN <<a[1]>> ELSE a ]
=============================================================================
