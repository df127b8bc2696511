SPECIFICATION SpecM
CONSTANTS
  Segments = {"a", ":x"}
  ReqSegs = {"a"}
  MaxLen = 1
  MaxRoutes = 3
  ReqLen = 1
INVARIANTS Precedence FiltersWellFormed
PROPERTY OthersUntouched
CHECK_DEADLOCK FALSE
