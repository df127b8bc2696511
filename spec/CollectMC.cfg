SPECIFICATION Spec
CONSTANTS Intervals = {0, 59, 60, 90}
 Steps = {1, 60, 3600}
 K = 6
INVARIANTS Agrees Rare
CHECK_DEADLOCK FALSE
