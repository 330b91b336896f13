----------------------------- MODULE TraceMono -----------------------------
EXTENDS CLPolyMono, TraceBase
TP == INSTANCE CLPolyPoly
Ok == Line.s = "ok"
Observed == LET st == Line.r.st IN
            /\ Len(st) = Cardinality(DOMAIN reg')
            /\ \A i \in DOMAIN st : st[i][1] \in DOMAIN reg' /\ reg'[st[i][1]] = st[i][2]
Store(d, x) == reg' = PutF(reg, d, x) /\ UNCHANGED ord /\ Observed
Same == UNCHANGED <<reg, ord>> /\ Observed
TReset == IsEvent("case") /\ reg' = <<>> /\ ord' = <<>>
TSetup == IsEvent("setup") /\ Ok /\ UNCHANGED <<reg, ord>>
TOrder == IsEvent("order") /\ Ok /\ ord' = [nv |-> Line.nv, o |-> Line.o] /\ reg' = reg
TNew == IsEvent("mnew") /\ Ok /\ Store(Line.d, XFrom(Line.ps))
TPush == IsEvent("mpush") /\ Ok /\ Store(Line.d, XMul(reg[Line.d], XUnit(NV, Line.v, Line.e)))
TPop == IsEvent("mpop") /\ Ok /\ Store(Line.d, XSet(reg[Line.d], XLast(reg[Line.d]), 0))
TBin == /\ IsEvent("mbin") /\ Ok
        /\ IF Line.k = "divx" /\ ~ XDivides(reg[Line.y], reg[Line.x])
           THEN Line.r.v = FALSE /\ reg' = DropF(reg, Line.d) /\ UNCHANGED ord /\ Observed
           ELSE /\ Line.k = "divx" => Line.r.v = TRUE
                /\ Store(Line.d, XBin(Line.k, reg[Line.x], reg[Line.y]))
TPow == IsEvent("mpow") /\ Ok /\ Store(Line.d, XPow(reg[Line.x], Line.n))
TCopy == IsEvent("copy") /\ Ok /\ Store(Line.d, reg[Line.x])
TMove == /\ IsEvent("move") /\ Ok /\ UNCHANGED ord
         /\ reg' = (IF Line.d = Line.x THEN reg ELSE DropF(PutF(reg, Line.d, reg[Line.x]), Line.x))
         /\ Observed
TSwap == IsEvent("swap") /\ Ok /\ reg' = [reg EXCEPT ![Line.x] = reg[Line.y], ![Line.y] = reg[Line.x]] /\ UNCHANGED ord /\ Observed
TCmp == /\ IsEvent("mcmp") /\ Ok /\ Same
        /\ LET x == reg[Line.x]  y == reg[Line.y]  v == Line.r.v
           IN  /\ v[1] = XGreater(ord.o, x, y)
               /\ v[2] = (x = y) /\ v[3] = (x # y)
               /\ v[4] = XClassGreater(x, y) /\ v[5] = XClassGreater(y, x)
               /\ v[6] = ~ XClassGreater(y, x) /\ v[7] = ~ XClassGreater(x, y)
               /\ (x = y => v[8])
TQuery == /\ IsEvent("mquery") /\ Ok /\ Same
          /\ LET x == reg[Line.x]  q == Line.r.v
             IN  /\ q.deg = XDeg(x) /\ q.degs = x /\ q.size = Cardinality({i \in DOMAIN x : x[i] # 0})
                 /\ q.empty = (x = XZero(NV)) /\ q.normal
                 /\ \A i \in 1..2 : TP!TextDenotes(RZ, NV, q.txt[i]) = <<TRUE, PMono(RZ, x, BOne)>>
TVCmp == IsEvent("vcmp") /\ Ok /\ Same /\ Line.r.v = [i \in 1..NV |-> [j \in 1..NV |-> Pos(i) < Pos(j)]]
TraceInit == reg = <<>> /\ ord = <<>> /\ l = 1
TraceNext == TReset \/ TSetup \/ TOrder \/ TNew \/ TPush \/ TPop \/ TBin \/ TPow \/ TCopy \/ TMove \/ TSwap \/ TCmp \/ TQuery \/ TVCmp
TraceSpec == TraceInit /\ [][TraceNext]_<<reg, ord, l>>
=============================================================================
