SPECIFICATION Spec
CONSTANTS N = 10
 Exp = 60
 Faults = {"", "before", "late"}
 BOps = {"req", "start", "set", "flush", "regen"}
INVARIANTS Emit Apart OnlyIssued Expired
PROPERTIES Moved Retry Buried
CHECK_DEADLOCK FALSE
