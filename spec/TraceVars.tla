----------------------------- MODULE TraceVars -----------------------------
EXTENDS CLPolyVars, TraceBase
Ok == Line.s = "ok"
\* every handle whose variable is live keeps its serial and its name
Seen(h) == \E i \in DOMAIN Line.r.st : Line.r.st[i] = <<h, slot'[h].s, slot'[h].n>>
Observed == /\ \A h \in DOMAIN slot' : slot'[h].a => Seen(h)
            /\ Bijection' /\ HandlesGood'
Res(n) == Line.r.v[2] = n
TReset == IsEvent("case") /\ live' = <<>> /\ slot' = <<>>
TGet == /\ Line.op \in {"get", "ctor"} /\ IsEvent(Line.op) /\ Ok
        /\ Get(Line.h, Line.r.q, Line.r.v[1]) /\ Res(Line.r.q) /\ Observed
TNewN == IsEvent("newn") /\ Ok /\ Create(Line.h, Line.r.q, Line.r.v[1]) /\ Res(Line.r.q) /\ Observed
TNew == IsEvent("new") /\ Ok /\ Create(Line.h, Line.r.v[2], Line.r.v[1]) /\ Observed
TGetS == IsEvent("gets") /\ Ok /\ Alias(Line.h, Line.g) /\ Line.r.v = <<slot[Line.g].s, slot[Line.g].n>> /\ Observed
TCopy == IsEvent("copy") /\ Ok /\ Alias(Line.h, Line.g) /\ (slot[Line.g].a => Line.r.v = <<slot[Line.g].s, slot[Line.g].n>>) /\ Observed
TSwap == /\ IsEvent("swap") /\ Ok /\ live' = live
         /\ slot' = [slot EXCEPT ![Line.h] = slot[Line.g], ![Line.g] = slot[Line.h]] /\ Observed
TDelN == IsEvent("deln") /\ Ok /\ DeleteName(Line.r.q) /\ Observed
TDelS == IsEvent("dels") /\ Ok /\ slot[Line.h].a /\ Line.r.v = slot[Line.h].s /\ Delete(slot[Line.h].n) /\ Observed
TDelX == IsEvent("delx") /\ Ok /\ UNCHANGED varsV /\ Observed
TGrow == IsEvent("grow") /\ Ok /\ UNCHANGED varsV /\ Observed
TCmp == /\ IsEvent("cmp") /\ Ok /\ UNCHANGED varsV /\ Observed
        /\ LET x == slot[Line.h]  y == slot[Line.g]  v == Line.r.v
           IN  /\ v[1] = (x.s = y.s) /\ v[2] = (x.s # y.s) /\ v[3] = (x.s < y.s) /\ v[4] = (x.s > y.s)
               /\ v[5] = (x.s <= y.s) /\ v[6] = (x.s >= y.s) /\ (x.s = y.s => v[7]) /\ v[8] = (x.s < y.s)
               /\ (x.a => v[9] = x.n) /\ (y.a => v[10] = y.n)
TraceInit == InitV /\ l = 1
TraceNext == TReset \/ TGet \/ TNewN \/ TNew \/ TGetS \/ TCopy \/ TSwap \/ TDelN \/ TDelS \/ TDelX \/ TGrow \/ TCmp
TraceSpec == TraceInit /\ [][TraceNext]_<<live, slot, l>>
=============================================================================
