------------------------------ MODULE VarImpl ------------------------------
(***************************************************************************)
(* Design model of the registry as the library builds it: a vector of      *)
(* names indexed by serial (serial 0 is the nameless constant), a map from *)
(* names to serials, and a stack of serials freed by deletions.  TLC       *)
(* checks that it refines CLPolyVars and prints every command history up   *)
(* to Depth; those histories are replayed on the library.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, NameToks, DelToks, NSlots, Emit
VARIABLES vec, nmap, free, slot, hist
vars == <<vec, nmap, free, slot, hist>>

LiveNames == (DOMAIN nmap) \ {""}
live == [n \in LiveNames |-> nmap[n]]
R == INSTANCE CLPolyVars

Auto(s) == "#var_" \o ToString(s)
RECURSIVE Free(_)
Free(n) == IF n \in DOMAIN nmap THEN Free(n \o "_") ELSE n
\* the serial the next creation takes, and the state after it
NextS == IF free = <<>> THEN Len(vec) ELSE Last(free)
SecondS == IF Len(free) > 1 THEN free[Len(free) - 1] ELSE Len(vec) + (IF free = <<>> THEN 1 ELSE 0)
Init == vec = <<"">> /\ nmap = [n \in {""} |-> 0] /\ free = <<>> /\ slot = <<>> /\ hist = <<>>
Make(h, n) == LET s == NextS IN
              /\ vec' = IF free = <<>> THEN Append(vec, n) ELSE [vec EXCEPT ![s + 1] = n]
              /\ free' = IF free = <<>> THEN free ELSE Front(free)
              /\ nmap' = [x \in (DOMAIN nmap) \cup {n} |-> IF x = n THEN s ELSE nmap[x]]
              /\ slot' = R!PutF(slot, h, R!Handle(s, n))
Purge(s) == /\ nmap' = R!DropF(nmap, vec[s + 1]) /\ vec' = [vec EXCEPT ![s + 1] = ""] /\ free' = Append(free, s)
             /\ slot' = R!Kill(slot, s)
\* symbolic names, resolved as the driver resolves them
Resolve(t) == CASE t = "@P1" -> Auto(NextS) [] t = "@P2" -> Auto(SecondS) [] t = "@P1_" -> Auto(NextS) \o "_"
                [] t = "@S1" -> IF 1 \in DOMAIN slot THEN Auto(slot[1].s) ELSE Auto(0)
                [] t = "@S2_" -> IF 2 \in DOMAIN slot THEN Auto(slot[2].s) \o "_" ELSE Auto(0) \o "_"
                [] t = "@N1" -> IF 1 \in DOMAIN slot THEN slot[1].n ELSE "none"
                [] t = "@N2" -> IF 2 \in DOMAIN slot THEN slot[2].n ELSE "none"
                [] OTHER -> t
H == 1 + (Len(hist) % NSlots)
Say(c) == hist' = Append(hist, c)
Get(t) == LET n == Resolve(t) IN
          /\ Say(<<"get", H, t>>)
          /\ IF n \in LiveNames THEN slot' = R!PutF(slot, H, R!Handle(nmap[n], n)) /\ UNCHANGED <<vec, nmap, free>>
             ELSE Make(H, n)
New == Say(<<"new", H>>) /\ Make(H, Free(Auto(NextS)))
DelName(t) == LET n == Resolve(t) IN
              /\ Say(<<"deln", t>>)
              /\ IF n \in LiveNames THEN Purge(nmap[n]) ELSE UNCHANGED <<vec, nmap, free, slot>>
DelSlot(h) == /\ h \in DOMAIN slot /\ slot[h].a /\ Say(<<"dels", h>>) /\ Purge(slot[h].s)
Next == /\ Len(hist) < Depth
        /\ \/ \E t \in NameToks : Get(t)
           \/ New
           \/ \E t \in DelToks : DelName(t)
           \/ \E h \in 1..NSlots : DelSlot(h)
Spec == Init /\ [][Next]_vars

\* the representation invariant
Consistent == /\ \A n \in DOMAIN nmap : vec[nmap[n] + 1] = n
              /\ \A i \in 2..Len(vec) : vec[i] = "" <=> \E j \in DOMAIN free : free[j] = i - 1
              /\ \A i, j \in DOMAIN free : free[i] = free[j] => i = j
              /\ R!Bijection /\ R!HandlesGood
Print1 == (Emit /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
\* every step is a step of the registry
RNext == \/ \E h \in 1..NSlots, n \in LiveNames', s \in 0..(Len(vec) + 1) : R!Get(h, n, s)
         \/ \E n \in LiveNames : R!DeleteName(n)
         \/ UNCHANGED <<live, slot>>
Refines == [][RNext]_vars
=============================================================================
