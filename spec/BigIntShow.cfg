CONSTANT Deep = FALSE
INIT Init
NEXT Next
INVARIANT ShowInv
CHECK_DEADLOCK FALSE
