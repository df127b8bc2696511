SPECIFICATION Spec
CONSTANTS N = 4
 Exp = 60
INVARIANTS Emit OneUser Together
PROPERTY Never
CHECK_DEADLOCK FALSE
