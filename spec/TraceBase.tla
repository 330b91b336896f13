----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading a recorded history and consuming it line by line.               *)
(* Every line is a record [op, s, r, ...operands]; s is "ok" when the call *)
(* returned, "exc" when it threw, "bad"/"crash"/"hang" otherwise; r is the *)
(* projected result.  A line no action of the specification explains stops *)
(* the exploration, and TraceAccepted (a postcondition) reports how far it *)
(* got.                                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Line == Hist[l]
IsEvent(o) == l <= Len(Hist) /\ Hist[l].op = o /\ l' = l + 1
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"ACCEPTED-LINES", d, Len(Hist)>>)
=============================================================================
