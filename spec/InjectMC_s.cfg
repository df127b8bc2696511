SPECIFICATION Spec
CONSTANTS
  Keys = {"A", "B", "C", "D"}
  MaxOps = 12
  MaxDeps = 2
  Show = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
