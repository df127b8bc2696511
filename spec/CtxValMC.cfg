SPECIFICATION Spec
CONSTANTS K = 3
 Types = {1, 2}
 Names = {"", "a"}
INVARIANTS Emit
PROPERTIES Local
CHECK_DEADLOCK FALSE
