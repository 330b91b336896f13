CONSTANT Kind = "Q"
CONSTANT Size = 1
INIT Init
NEXT Next
INVARIANT ShowInv
CHECK_DEADLOCK FALSE
