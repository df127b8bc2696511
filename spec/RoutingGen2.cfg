SPECIFICATION GSpec
CONSTANTS
  Segments = {"a", "b", ":x", ":x:v", "*:w"}
  ReqSegs = {"a", "b", "c", "c:v", "a:v"}
  MaxLen = 2
  MaxRoutes = 2
  ReqLen = 3
CHECK_DEADLOCK FALSE
CONSTRAINT Emit
