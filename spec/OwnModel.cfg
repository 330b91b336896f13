SPECIFICATION Spec
CONSTANTS
 Regs = {"a","b","c","d"}
 Blocks = {1,2,3,4}
 Big = 2
INVARIANTS NoLeak NoDangling Values_OK Canonical Balance
CHECK_DEADLOCK FALSE
