SPECIFICATION Spec
CONSTANTS K = 3
INVARIANTS Emit Inherits
PROPERTIES Stays Apart
CHECK_DEADLOCK FALSE
