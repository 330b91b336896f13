---------------------------- MODULE CLPolyStore ----------------------------
(***************************************************************************)
(* Storage.  A history works on objects; when its objects are destroyed    *)
(* the storage they held is free again, and no call touches storage that   *)
(* is not part of a live object.  The library may keep tables (names,      *)
(* primes, ...) that grow while they are first needed: the same history,   *)
(* run again from the same draws, must not need more and more.             *)
(*   held: bytes in use after the destruction of all objects, one reading  *)
(*   per repetition of the history.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences
VARIABLE held
Growing(h) == Len(h) >= 3 /\ \A i \in 2..Len(h) : h[i] > h[i - 1]
StoreReset == held' = <<>>
Touches(status) == status # "memory"          \* misuse of memory: read or write outside live objects, double release
Call(status) == Touches(status) /\ UNCHANGED held
Destroy(bytes) == held' = Append(held, bytes) /\ (Growing(held') = FALSE)
=============================================================================
