---------------------------- MODULE CLPolyVars ----------------------------
(***************************************************************************)
(* The registry of variables: a bijection between the names and the        *)
(* identities (serials) of the live variables.  Which fresh serial or      *)
(* anonymous name is chosen is left open.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES live,     \* live name -> serial
          slot      \* handle -> [s |-> serial, n |-> name] of the variable it was given
varsV == <<live, slot>>

Serials == {live[n] : n \in DOMAIN live}
NameOf(s) == CHOOSE n \in DOMAIN live : live[n] = s
PutF(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
DropF(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
IsLive(h) == slot[h].n \in DOMAIN live /\ live[slot[h].n] = slot[h].s /\ slot[h].a
\* a handle is good while the variable it denotes has not been deleted
Kill(f, s) == [h \in DOMAIN f |-> IF f[h].s = s THEN [f[h] EXCEPT !.a = FALSE] ELSE f[h]]
Handle(s, n) == [s |-> s, n |-> n, a |-> TRUE]

InitV == live = <<>> /\ slot = <<>>
\* create a variable under name n with fresh serial s
Create(h, n, s) == /\ n \notin DOMAIN live /\ s \notin Serials /\ n # ""
                   /\ live' = PutF(live, n, s) /\ slot' = PutF(slot, h, Handle(s, n))
LookUp(h, n, s) == /\ n \in DOMAIN live /\ s = live[n]
                   /\ live' = live /\ slot' = PutF(slot, h, Handle(s, n))
Get(h, n, s) == Create(h, n, s) \/ LookUp(h, n, s)
Delete(n) == /\ live' = DropF(live, n) /\ slot' = Kill(slot, live[n])
DeleteName(n) == IF n \in DOMAIN live THEN Delete(n) ELSE UNCHANGED varsV
Alias(h, g) == live' = live /\ slot' = PutF(slot, h, slot[g])

Bijection == \A m, n \in DOMAIN live : live[m] = live[n] => m = n
HandlesGood == \A h \in DOMAIN slot : slot[h].a => IsLive(h)
=============================================================================
