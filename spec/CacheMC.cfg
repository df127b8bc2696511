SPECIFICATION Spec
CONSTANT N = 3
CONSTANT Short = FALSE
INVARIANTS Emit Gone Kept
PROPERTIES Indep NoSpontaneous
CHECK_DEADLOCK FALSE
