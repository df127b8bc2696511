SPECIFICATION Spec
CONSTANTS
  Alphabet = {"0", "1", "2", "5", "-", "+", ".", "e", ","}
  MaxLen = 5
  Show = TRUE
INVARIANTS Emit Stable Narrow Signs Empty Lists
CHECK_DEADLOCK FALSE
