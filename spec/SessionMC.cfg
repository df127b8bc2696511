SPECIFICATION Spec
CONSTANTS N = 5
 Exp = 60
 Faults = {"", "before"}
 BOps = {"start"}
INVARIANTS Emit Apart OnlyIssued Expired
PROPERTIES Moved Retry Buried
CHECK_DEADLOCK FALSE
