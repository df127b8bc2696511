SPECIFICATION Spec
CONSTANTS N = 5
 Exp = 60
 Faults = {"", "before", "late"}
 BOps = {"req", "start", "set", "flush"}
INVARIANTS Emit Apart OnlyIssued Expired
PROPERTIES Moved Retry Buried
CHECK_DEADLOCK FALSE
