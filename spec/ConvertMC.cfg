SPECIFICATION Spec
CONSTANTS
  Alphabet = {"0", "1", "2", "9", "-", "+", ".", "e", ",", " "}
  MaxLen = 3
  Show = TRUE
INVARIANTS Emit Stable Narrow Signs Empty Lists
CHECK_DEADLOCK FALSE
