SPECIFICATION Spec
INVARIANTS Emit NoPortLeft Whole Plain
CHECK_DEADLOCK FALSE
