INIT Init
NEXT Next
CONSTANTS NV = 3 E = 1
INVARIANT Laws
CHECK_DEADLOCK FALSE
