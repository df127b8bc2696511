SPECIFICATION Spec
CONSTANT K = 2
INVARIANTS Emit Completes Distinct Ordered
CHECK_DEADLOCK FALSE
