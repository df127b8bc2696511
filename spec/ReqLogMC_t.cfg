SPECIFICATION Spec
CONSTANT K = 3
INVARIANTS Emit Completes Distinct Ordered
CHECK_DEADLOCK FALSE
