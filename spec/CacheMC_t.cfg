SPECIFICATION Spec
CONSTANT N = 4
CONSTANT Short = TRUE
INVARIANTS Emit Gone Kept
PROPERTIES Indep NoSpontaneous
CHECK_DEADLOCK FALSE
