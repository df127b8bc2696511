SPECIFICATION TraceSpec
CONSTANTS
  Start <- PStart
  Step <- PStep
CHECK_DEADLOCK FALSE
