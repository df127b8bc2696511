SPECIFICATION Spec
CONSTANTS
  Segments = {"a", "b", ":x", ":x:v", "*:w"}
  ReqSegs = {"a", "c", "a:v"}
  MaxLen = 2
  MaxRoutes = 3
  ReqLen = 3
INVARIANTS ResolutionAgrees FoundIffMatched BestIsUnique ParamsExact
PROPERTY OthersUntouched
CHECK_DEADLOCK FALSE
