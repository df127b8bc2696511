SPECIFICATION Spec
CONSTANTS N = 5
 Exp = 60
INVARIANTS Emit OneUser Together
PROPERTY Never
CHECK_DEADLOCK FALSE
