SPECIFICATION TraceSpec
CONSTANTS
  Start <- CStart
  Step <- CStep
CHECK_DEADLOCK FALSE
