SPECIFICATION Spec
CONSTANTS K = 4
 Types = {1, 2}
 Names = {"", "a"}
INVARIANTS Emit
PROPERTIES Local
CHECK_DEADLOCK FALSE
