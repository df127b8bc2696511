SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Emit Inside Others Same Final
CHECK_DEADLOCK FALSE
