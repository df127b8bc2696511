SPECIFICATION GSpec
CONSTANTS
  Segments = {"a", ":x", ":x:v", "*:w"}
  ReqSegs = {"a", "c", "a:v"}
  MaxLen = 3
  MaxRoutes = 4
  ReqLen = 3
CHECK_DEADLOCK FALSE
CONSTRAINT Emit
