SPECIFICATION Spec
CONSTANTS Depth = 4  NSlots = 3  Emit = TRUE
  NameToks = {"a", "b", "@P1", "@P2", "@S1"}
  DelToks = {"a", "@N1", "@N2"}
INVARIANTS Consistent Print1
PROPERTY Refines
CHECK_DEADLOCK FALSE
