SPECIFICATION Spec
CONSTANTS K = 3
 Levels = {0, 4, 8}
 Sevs = {1, 4, 5, 8}
INVARIANTS Emit Flat Whole Named Graver Silent
CHECK_DEADLOCK FALSE
