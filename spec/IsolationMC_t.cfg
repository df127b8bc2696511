SPECIFICATION Spec
CONSTANT K = 3
INVARIANTS Emit Isolated
CHECK_DEADLOCK FALSE
