SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Emit Inside Others Same Final
CHECK_DEADLOCK FALSE
