SPECIFICATION Spec
CONSTANTS
  Keys = {"A", "B"}
  MaxOps = 3
  MaxDeps = 2
  Show = TRUE
INVARIANTS Sound Free OnlyNeeded Emit
CHECK_DEADLOCK FALSE
