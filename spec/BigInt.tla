------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Exact integer arithmetic of unbounded size.                             *)
(*                                                                         *)
(* TLC's built-in integers are 32-bit machine words; the system specified  *)
(* here (CLPoly) promises exact integers of any size.  An integer is       *)
(* represented as a sequence <<sign, d1, ..., dk>> with sign in {-1,0,1}   *)
(* and d1..dk the little-endian base-10000 digits of the absolute value,   *)
(* with dk # 0; zero is <<0>>.  The representation is canonical, so        *)
(* equality of integers is equality of sequences.                          *)
(*                                                                         *)
(* Every operator is defined below in TLA+.  BigInt.java overrides the     *)
(* ones marked (J) for speed; BigIntCheck.tla has TLC compare the override *)
(* with the definition given here, and the definition with TLC's integers. *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000

\* ---- magnitudes: little-endian digit sequences without leading zeros ----
RECURSIVE MStrip(_)
MStrip(m) == IF m = <<>> THEN m
             ELSE IF m[Len(m)] = 0 THEN MStrip(SubSeq(m, 1, Len(m) - 1)) ELSE m

Dig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1 ELSE MCmpFrom(a, b, i - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
              ELSE MCmpFrom(a, b, Len(a))

RECURSIVE MAddFrom(_, _, _, _)
MAddFrom(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == Dig(a, i) + Dig(b, i) + c
         IN  <<s % Base>> \o MAddFrom(a, b, i + 1, s \div Base)
MAdd(a, b) == MAddFrom(a, b, 1, 0)

RECURSIVE MSubFrom(_, _, _, _)
MSubFrom(a, b, i, c) ==      \* requires a >= b
    IF i > Len(a) THEN <<>>
    ELSE LET s == Dig(a, i) - Dig(b, i) - c
         IN  IF s < 0 THEN <<s + Base>> \o MSubFrom(a, b, i + 1, 1)
                      ELSE <<s>> \o MSubFrom(a, b, i + 1, 0)
MSub(a, b) == MStrip(MSubFrom(a, b, 1, 0))

RECURSIVE MMulDigFrom(_, _, _, _)
MMulDigFrom(a, d, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == a[i] * d + c
         IN  <<s % Base>> \o MMulDigFrom(a, d, i + 1, s \div Base)
MMulDig(a, d) == IF d = 0 THEN <<>> ELSE MMulDigFrom(a, d, 1, 0)

RECURSIVE MMul(_, _)
MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE MAdd(MMulDig(a, b[1]), MStrip(<<0>> \o MMul(a, Tail(b))))

\* largest q in lo..hi with b*q <= a
RECURSIVE QDigit(_, _, _, _)
QDigit(a, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF MCmp(MMulDig(b, mid), a) <= 0 THEN QDigit(a, b, mid, hi)
                                              ELSE QDigit(a, b, lo, mid - 1)
\* schoolbook long division from the most significant digit down
RECURSIVE MDivFrom(_, _, _, _, _)
MDivFrom(a, b, i, r, q) ==
    IF i = 0 THEN << MStrip(q), r >>
    ELSE LET r1 == MStrip(<<a[i]>> \o r)
             d  == QDigit(r1, b, 0, Base - 1)
         IN  MDivFrom(a, b, i - 1, MSub(r1, MMulDig(b, d)), <<d>> \o q)
MDivMod(a, b) == MDivFrom(a, b, Len(a), <<>>, <<>>)

\* ---- integers ----
BSgn(a) == a[1]
BMag(a) == Tail(a)
BMk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m

BZero == <<0>>
BOne  == <<1, 1>>

RECURSIVE NatDigits(_)
NatDigits(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NatDigits(n \div Base)
\* from a TLC integer (|n| < 2^31)
BInt(n) == IF n = 0 THEN <<0>> ELSE IF n > 0 THEN <<1>> \o NatDigits(n)      \* (J)
           ELSE <<-1>> \o NatDigits(-n)
\* to a TLC integer; only for |a| < 2^31
RECURSIVE DigVal(_, _)
DigVal(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + Base * DigVal(m, i + 1)
BToInt(a) == BSgn(a) * DigVal(BMag(a), 1)
BIsSmall(a) == Len(a) <= 3          \* |a| < 10^8

BNeg(a) == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Tail(a)                       \* (J)
BAbs(a) == IF a[1] >= 0 THEN a ELSE BNeg(a)
BAdd(a, b) ==                                                                \* (J)
    IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN <<a[1]>> \o MAdd(BMag(a), BMag(b))
    ELSE LET c == MCmp(BMag(a), BMag(b))
         IN  IF c = 0 THEN <<0>>
             ELSE IF c > 0 THEN <<a[1]>> \o MSub(BMag(a), BMag(b))
             ELSE <<b[1]>> \o MSub(BMag(b), BMag(a))
BSub(a, b) == BAdd(a, BNeg(b))                                               \* (J)
BMul(a, b) == BMk(a[1] * b[1], MMul(BMag(a), BMag(b)))                       \* (J)
BCmp(a, b) ==                                                                \* (J)
    IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
    ELSE a[1] * MCmp(BMag(a), BMag(b))
\* truncated division (quotient rounds toward zero, remainder has a's sign)
BQuo(a, b) == BMk(a[1] * b[1], MDivMod(BMag(a), BMag(b))[1])                 \* (J)
BRem(a, b) == BMk(a[1], MDivMod(BMag(a), BMag(b))[2])                        \* (J)
\* least non-negative residue modulo m > 0
BMod(a, m) == LET r == BRem(a, m) IN IF r[1] < 0 THEN BAdd(r, m) ELSE r      \* (J)
BDivides(a, b) == IF a = BZero THEN b = BZero ELSE BRem(b, a) = BZero
RECURSIVE BGcdRec(_, _)
BGcdRec(a, b) == IF b = BZero THEN a ELSE BGcdRec(b, BRem(a, b))
BGcd(a, b) == BGcdRec(BAbs(a), BAbs(b))                                      \* (J)
RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN BOne                                             \* (J)
              ELSE LET h == BPow(a, n \div 2)
                       s == BMul(h, h)
                   IN  IF n % 2 = 0 THEN s ELSE BMul(s, a)
\* a^n mod m for a big exponent n >= 0
RECURSIVE BPowMod(_, _, _)
BPowMod(a, n, m) == IF n = BZero THEN BMod(BOne, m)                          \* (J)
                    ELSE LET h == BPowMod(a, BQuo(n, BInt(2)), m)
                             s == BMod(BMul(h, h), m)
                         IN  IF BRem(n, BInt(2)) = BZero THEN s
                             ELSE BMod(BMul(s, a), m)
\* residue modulo a TLC integer m > 1
BModInt(a, m) == BToInt(BMod(a, BInt(m)))                                    \* (J)

BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BLcm(a, b) == IF a = BZero \/ b = BZero THEN BZero
              ELSE BAbs(BMul(BQuo(a, BGcd(a, b)), b))
\* well-formedness of an observed integer
BWellFormed(a) == /\ Len(a) >= 1
                  /\ a[1] \in {-1, 0, 1}
                  /\ \A i \in 2..Len(a) : a[i] \in 0..(Base - 1)
                  /\ (Len(a) = 1) = (a[1] = 0)
                  /\ Len(a) > 1 => a[Len(a)] # 0
=============================================================================
