SPECIFICATION Spec
CONSTANT N = 8
CONSTANT Short = TRUE
INVARIANTS Emit Gone Kept
CHECK_DEADLOCK FALSE
