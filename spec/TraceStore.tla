----------------------------- MODULE TraceStore -----------------------------
EXTENDS CLPolyStore, TraceBase
TReset == IsEvent("case") /\ StoreReset
TCall == IsEvent("call") /\ Call(Line.s)
THeap == IsEvent("heap") /\ Line.s = "ok" /\ Destroy(Line.r)
TraceInit == held = <<>> /\ l = 1
TraceNext == TReset \/ TCall \/ THeap
TraceSpec == TraceInit /\ [][TraceNext]_<<held, l>>
=============================================================================
