SPECIFICATION Spec
CONSTANT K = 3
INVARIANTS Emit Reflexive NoBody
PROPERTIES Kept Equal
CHECK_DEADLOCK FALSE
