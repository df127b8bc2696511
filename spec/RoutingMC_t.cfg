SPECIFICATION Spec
CONSTANTS
  Segments = {"a", ":x", ":x:v", "*:w"}
  ReqSegs = {"a", "c", "a:v"}
  MaxLen = 3
  MaxRoutes = 3
  ReqLen = 4
INVARIANTS ResolutionAgrees FoundIffMatched BestIsUnique ParamsExact
PROPERTY OthersUntouched
CHECK_DEADLOCK FALSE
