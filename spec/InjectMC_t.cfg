SPECIFICATION Spec
CONSTANTS
  Keys = {"A", "B"}
  MaxOps = 4
  MaxDeps = 2
  Show = TRUE
INVARIANTS Sound Free OnlyNeeded Emit
CHECK_DEADLOCK FALSE
