SPECIFICATION Spec
CONSTANT K = 4
INVARIANTS Emit Reflexive NoBody
PROPERTIES Kept Equal
CHECK_DEADLOCK FALSE
