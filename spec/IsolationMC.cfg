SPECIFICATION Spec
CONSTANT K = 2
INVARIANTS Emit Isolated
CHECK_DEADLOCK FALSE
