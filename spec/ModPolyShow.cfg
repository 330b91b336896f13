CONSTANT P = 3
CONSTANT N = 3
INIT Init
NEXT Next
INVARIANT ShowInv
CHECK_DEADLOCK FALSE
