---------------------------- MODULE BigIntCheck ----------------------------
(* Laws of the integers of BigInt.tla over a set of boundary values, and a *)
(* digest of every operator: run with and without the Java override the    *)
(* digests must agree (see models.py).                                     *)
EXTENDS Numbers, TLC
CONSTANT Deep
T(n) == BPow(BInt(2), n)
D(n) == BPow(BInt(10), n)
Around(x) == {BSub(x, BOne), x, BAdd(x, BOne)}
Pos == {BInt(1), BInt(2), BInt(7), BInt(9999), BInt(10000), BInt(10001), BInt(123456789)} \cup Around(T(31)) \cup Around(T(63)) \cup Around(T(64))
       \cup {BSub(D(40), BOne), D(40), BAdd(BMul(D(24), BInt(5)), BInt(3)), BInt(99990000)}
       \cup (IF Deep THEN Around(T(127)) \cup Around(D(8)) \cup Around(D(16)) \cup {BSub(T(200), D(20)), BMul(BSub(D(12), BOne), BSub(D(12), BOne))} ELSE {})
Vals == Pos \cup {BNeg(x) : x \in Pos} \cup {BZero}
Small == {-46340, -10001, -10000, -9999, -12, -1, 0, 1, 5, 9999, 10000, 10001, 46340}
VARIABLES a, b
Init == a \in Vals /\ b \in Vals
Next == UNCHANGED <<a, b>>
TQuo(m, n) == LET q == (IF m < 0 THEN -m ELSE m) \div (IF n < 0 THEN -n ELSE n) IN IF (m < 0) = (n < 0) THEN q ELSE -q
\* against TLC's own integers
Words == \A m \in Small : \A n \in Small :
            /\ BAdd(BInt(m), BInt(n)) = BInt(m + n) /\ BSub(BInt(m), BInt(n)) = BInt(m - n)
            /\ BMul(BInt(m), BInt(n)) = BInt(m * n) /\ BToInt(BInt(m)) = m
            /\ BCmp(BInt(m), BInt(n)) = (IF m < n THEN -1 ELSE IF m > n THEN 1 ELSE 0)
            /\ n # 0 => BQuo(BInt(m), BInt(n)) = BInt(TQuo(m, n)) /\ BRem(BInt(m), BInt(n)) = BInt(m - n * TQuo(m, n))
            /\ n > 0 => BMod(BInt(m), BInt(n)) = BInt(m % n)
Laws == /\ BWellFormed(BAdd(a, b)) /\ BWellFormed(BMul(a, b))
        /\ BSub(BAdd(a, b), b) = a
        /\ BMul(BAdd(a, b), BSub(a, b)) = BSub(BMul(a, a), BMul(b, b))
        /\ BCmp(a, b) = BSgn(BSub(a, b))
        /\ b # BZero => LET q == BQuo(a, b)  r == BRem(a, b)
                        IN  /\ BAdd(BMul(q, b), r) = a /\ BLt(BAbs(r), BAbs(b)) /\ BSgn(r) \in {0, BSgn(a)}
                            /\ BAdd(BMul(BFloorDiv(a, b), b), BFloorRem(a, b)) = a /\ BSgn(BFloorRem(a, b)) \in {0, BSgn(b)}
                            /\ LET g == BGcd(a, b) IN BDivides(g, a) /\ BDivides(g, b) /\ BGcd(BQuo(a, g), BQuo(b, g)) = BOne
                            /\ QWellFormed(QMk(a, b)) /\ QMul(QMk(a, b), QInt(b)) = QInt(a)
        /\ (a = BOne /\ b = BOne) => Words
Show == PrintT("D " \o ToString(<<a, b, BNeg(a), BAdd(a, b), BSub(a, b), BMul(a, b), BCmp(a, b), BGcd(a, b), BPow(a, 5), BAbs(b),
            IF b = BZero THEN <<>> ELSE <<BQuo(a, b), BRem(a, b)>>,
            IF BLt(BZero, b) THEN <<BMod(a, b), BPowMod(a, BInt(13), b)>> ELSE <<>>,
            BModInt(a, 9973), BInt(-123456), IF Len(a) > 6 THEN 0 ELSE BBits(a)>>))
Inv == Laws
ShowInv == Show
=============================================================================
