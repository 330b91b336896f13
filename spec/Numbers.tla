------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* The number layer of CLPoly: ZZ, QQ and Zp as mathematical values, and   *)
(* the meaning of every public operation on them.                          *)
(***************************************************************************)
EXTENDS BigInt, FiniteSets

\* ------------------------------------------------------------ rationals --
\* A rational is <<num, den>>, den > 0, coprime.
QMk(n, d) == LET s == IF d[1] < 0 THEN BNeg(n) ELSE n
                 e == BAbs(d)
                 g == BGcd(n, e)
             IN  IF n = BZero THEN <<BZero, BOne>>
                 ELSE IF g = BOne THEN <<s, e>> ELSE <<BQuo(s, g), BQuo(e, g)>>
QInt(n) == <<n, BOne>>
QZero == <<BZero, BOne>>
QOne  == <<BOne, BOne>>
QAdd(a, b) == IF a[2] = BOne /\ b[2] = BOne THEN <<BAdd(a[1], b[1]), BOne>>
              ELSE QMk(BAdd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
QNeg(a) == <<BNeg(a[1]), a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == IF a[2] = BOne /\ b[2] = BOne THEN <<BMul(a[1], b[1]), BOne>>
              ELSE QMk(BMul(a[1], b[1]), BMul(a[2], b[2]))
QDiv(a, b) == QMk(BMul(a[1], b[2]), BMul(a[2], b[1]))
QCmp(a, b) == BCmp(BMul(a[1], b[2]), BMul(b[1], a[2]))
QLt(a, b) == QCmp(a, b) < 0
QLe(a, b) == QCmp(a, b) <= 0
QSgn(a) == a[1][1]
QPow(a, n) == <<BPow(a[1], n), BPow(a[2], n)>>
QMid(a, b) == QDiv(QAdd(a, b), QInt(BInt(2)))
QWellFormed(a) == /\ Len(a) = 2 /\ BWellFormed(a[1]) /\ BWellFormed(a[2])
                  /\ a[2][1] = 1 /\ BGcd(a[1], a[2]) = BOne

\* --------------------------------------------------------- prime fields --
\* residues are BigInts in [0,p); p a prime BigInt
PInv(a, p) == BPowMod(a, BSub(p, BInt(2)), p)

\* ------------------------------------------------------------------- ZZ --
\* floor division and the word-level queries
BFloorDiv(a, b) == LET q == BQuo(a, b)  r == BRem(a, b)
                   IN  IF r # BZero /\ (r[1] # b[1]) THEN BSub(q, BOne) ELSE q
BFloorRem(a, b) == BSub(a, BMul(b, BFloorDiv(a, b)))
BShl(a, n) == BMul(a, BPow(BInt(2), n))
BShr(a, n) == BFloorDiv(a, BPow(BInt(2), n))          \* arithmetic shift
BOdd(a) == Len(a) > 1 /\ a[2] % 2 = 1
RECURSIVE BBitsFrom(_, _, _)
BBitsFrom(a, pw, n) == IF BCmp(pw, a) > 0 THEN n ELSE BBitsFrom(a, BMul(pw, BInt(2)), n + 1)
BBits(a) == IF a = BZero THEN 1 ELSE BBitsFrom(BAbs(a), BInt(2), 1)
Two63 == BPow(BInt(2), 63)
FitsI64(a) == BLe(BNeg(Two63), a) /\ BLt(a, Two63)

\* binary operations:   ZZBin(op, x, y)
ZZBinOps == {"add", "sub", "mul", "quo", "rem", "gcd", "lcm", "fdivq", "fdivr"}
ZZDivOps == {"quo", "rem", "fdivq", "fdivr", "fdivqr"}
ZZBin(op, x, y) ==
    CASE op = "add" -> BAdd(x, y)
      [] op = "sub" -> BSub(x, y)
      [] op = "mul" -> BMul(x, y)
      [] op = "quo" -> BQuo(x, y)
      [] op = "rem" -> BRem(x, y)
      [] op = "gcd" -> BGcd(x, y)
      [] op = "lcm" -> BLcm(x, y)
      [] op = "fdivq" -> BFloorDiv(x, y)
      [] op = "fdivr" -> BFloorRem(x, y)
QQBinOps == {"add", "sub", "mul", "quo"}
QQBin(op, x, y) ==
    CASE op = "add" -> QAdd(x, y)
      [] op = "sub" -> QSub(x, y)
      [] op = "mul" -> QMul(x, y)
      [] op = "quo" -> QDiv(x, y)
\* what zp.all must report for residues of x, y modulo p, an integer n and an exponent e
ZpAll(p, xi, yi, n, e) ==
    LET x == BMod(xi, p)
        y == BMod(yi, p)
        R(v) == <<BMod(v, p), p>>
        pw == BPowMod(x, e, p)
    IN [ x |-> R(x), y |-> R(y), add |-> R(BAdd(x, y)), sub |-> R(BSub(x, y)),
         mul |-> R(BMul(x, y)), neg |-> R(BNeg(x)),
         muli |-> R(BMul(x, n)), imul2 |-> R(BMul(x, n)),
         pow |-> IF BSgn(e) <= 0 THEN <<BMod(BOne, p), p>> ELSE <<pw, p>>,
         iadd |-> R(BAdd(x, y)), isub |-> R(BSub(x, y)), imul |-> R(BMul(x, y)),
         dbl |-> R(BAdd(x, x)), self0 |-> R(BZero), sqr |-> R(BMul(x, x)),
         addmul |-> R(BAdd(x, BMul(x, y))), submul |-> R(BSub(x, BMul(x, y))),
         div |-> IF y = BZero THEN <<>> ELSE R(BMul(x, PInv(y, p))),
         inv |-> IF y = BZero THEN <<>> ELSE R(PInv(y, p)),
         idiv |-> IF y = BZero THEN <<>> ELSE R(BMul(x, PInv(y, p))),
         eq |-> (x = y), ne |-> (x # y),
         eqi |-> (x = BMod(n, p)), eqi2 |-> (x = BMod(n, p)),
         nei |-> (x # BMod(n, p)), nei2 |-> (x # BMod(n, p)), gei |-> BLe(n, x),
         bool |-> (x # BZero), zc |-> (x = BZero), u |-> x, text |-> x, hash |-> TRUE ]
=============================================================================
