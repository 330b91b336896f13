----------------------------- MODULE TraceNum -----------------------------
EXTENDS CLPolyNum, TraceBase

\* after an accepted call every live object holds what the specification says
Observed == LET st == Line.r.st
            IN  /\ Len(st) = Cardinality(DOMAIN reg')
                /\ \A i \in 1..Len(st) : st[i][1] \in DOMAIN reg' /\ st[i][2] = reg'[st[i][1]]
Ok == Line.s = "ok"

TReset == IsEvent("case") /\ NumReset
TConst == IsEvent("const") /\ Ok /\ Store(Line.d, Line.v) /\ Observed          \* construction from a literal
TQConst == IsEvent("qconst") /\ Ok /\ Line.v[2] # BZero /\ Store(Line.d, QMk(Line.v[1], Line.v[2])) /\ Observed
TQConst0 == IsEvent("qconst") /\ Line.s = "exc" /\ Line.v[2] = BZero /\ UNCHANGED reg
TBad == IsEvent("zbad") /\ Line.s = "exc" /\ UNCHANGED reg          \* text that is no number
TBin  == /\ IsEvent("zbin") /\ Ok /\ ZZBinary(Line.k, Line.d, Line.x, Line.y) /\ Observed
TDiv0 == /\ IsEvent("zbin") /\ Line.s = "exc" /\ Line.k \in ZZDivOps /\ DivByZero(Line.y, BZero)
TFqr  == IsEvent("zfdivqr") /\ Ok /\ ZZFdivQR(Line.d, Line.e, Line.x, Line.y) /\ Observed
TFqr0 == IsEvent("zfdivqr") /\ Line.s = "exc" /\ DivByZero(Line.y, BZero)
TUn   == /\ IsEvent("zun") /\ Ok
         /\ Store(Line.d, CASE Line.k = "neg" -> BNeg(reg[Line.x])
                            [] Line.k = "abs" -> BAbs(reg[Line.x])
                            [] Line.k = "pow" -> BPow(reg[Line.x], Line.n)
                            [] Line.k = "shl" -> BShl(reg[Line.x], Line.n)
                            [] Line.k = "shr" -> BShr(reg[Line.x], Line.n)
                            [] Line.k = "zero" -> BZero)
         /\ Observed
TAddMul == IsEvent("zaddmul") /\ Ok /\ ZZAddMul(Line.d, Line.x, Line.y) /\ Observed
TSubMul == IsEvent("zsubmul") /\ Ok /\ ZZSubMul(Line.d, Line.x, Line.y) /\ Observed
TCopy == IsEvent("copy") /\ Ok /\ Copy(Line.d, Line.x) /\ Observed
TMove == IsEvent("move") /\ Ok /\ MoveTo(Line.d, Line.x) /\ Observed
TSwap == IsEvent("swap") /\ Ok /\ SwapRegs(Line.x, Line.y) /\ Observed
TInvert == /\ IsEvent("zinvert") /\ Ok /\ Line.r.v = ZZInvertible(Line.x, Line.y)
           /\ IF ZZInvertible(Line.x, Line.y)
              THEN \E i \in 1..Len(Line.r.st) : /\ Line.r.st[i][1] = Line.d
                                                /\ ZZInvertOK(Line.x, Line.y, Line.r.st[i][2])
                                                /\ Store(Line.d, Line.r.st[i][2])
              ELSE UNCHANGED reg
           /\ Observed
Query == UNCHANGED reg /\ Ok /\ Observed
TZCmp == IsEvent("zcmp") /\ Query
         /\ Line.r.v[1] = BCmp(reg[Line.x], reg[Line.y])
         /\ (reg[Line.x] = reg[Line.y] => Line.r.v[2])
TZQuery == IsEvent("zquery") /\ Query /\ Line.r.v = ZZQuery(reg[Line.x])
TFdivUI == IsEvent("zfdivui") /\ Query /\ Line.r.v = BMod(reg[Line.x], Line.m)
TGetSi  == IsEvent("zgetsi") /\ Query /\ (FitsI64(reg[Line.x]) => Line.r.v = reg[Line.x])
\* ---- QQ ----
TQMk  == IsEvent("qmk") /\ Ok /\ reg[Line.y] # BZero /\ Store(Line.d, QMk(reg[Line.x], reg[Line.y])) /\ Observed
TQMk0 == IsEvent("qmk") /\ Line.s = "exc" /\ DivByZero(Line.y, BZero)
TQZz  == IsEvent("qzz") /\ Ok /\ Store(Line.d, QInt(reg[Line.x])) /\ Observed
TQBin == /\ IsEvent("qbin") /\ Ok /\ (Line.k = "quo" => reg[Line.y] # QZero)
         /\ Store(Line.d, QQBin(Line.k, reg[Line.x], reg[Line.y])) /\ Observed
TQDiv0 == IsEvent("qbin") /\ Line.s = "exc" /\ Line.k = "quo" /\ DivByZero(Line.y, QZero)
TQUn  == /\ IsEvent("qun") /\ Ok
         /\ Store(Line.d, CASE Line.k = "neg" -> QNeg(reg[Line.x])
                            [] Line.k = "abs" -> <<BAbs(reg[Line.x][1]), reg[Line.x][2]>>
                            [] Line.k = "pow" -> QPow(reg[Line.x], Line.n)
                            [] Line.k = "canon" -> reg[Line.x])
         /\ Observed
TQCmp == IsEvent("qcmp") /\ Query
         /\ Line.r.v[1] = QCmp(reg[Line.x], reg[Line.y])
         /\ (reg[Line.x] = reg[Line.y] => Line.r.v[2])
TQQuery == IsEvent("qquery") /\ Query /\ Line.r.v = QQQuery(reg[Line.x])
\* ---- Zp ----
TZp == IsEvent("zpall") /\ Ok /\ UNCHANGED reg /\ Line.r = ZpAll(Line.p, Line.x, Line.y, Line.n, Line.e)

TraceInit == reg = <<>> /\ l = 1
TraceNext == \/ TReset \/ TConst \/ TBad \/ TQConst \/ TQConst0 \/ TBin \/ TDiv0 \/ TFqr \/ TFqr0 \/ TUn
             \/ TAddMul \/ TSubMul \/ TCopy \/ TMove \/ TSwap \/ TInvert \/ TZCmp \/ TZQuery
             \/ TFdivUI \/ TGetSi \/ TQMk \/ TQMk0 \/ TQZz \/ TQBin \/ TQDiv0 \/ TQUn \/ TQCmp
             \/ TQQuery \/ TZp
TraceSpec == TraceInit /\ [][TraceNext]_<<reg, l>>
=============================================================================
