SPECIFICATION TraceSpec
CONSTANTS
  Start <- GStart
  Step <- GStep
CHECK_DEADLOCK FALSE
