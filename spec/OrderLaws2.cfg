INIT Init
NEXT Next
CONSTANTS NV = 2 E = 3
INVARIANT Laws
CHECK_DEADLOCK FALSE
