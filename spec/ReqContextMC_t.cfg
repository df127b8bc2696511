SPECIFICATION Spec
CONSTANTS K = 4
INVARIANTS Emit Inherits
PROPERTIES Stays Apart
CHECK_DEADLOCK FALSE
