SPECIFICATION Spec
CONSTANTS
  Alphabet = {"[", "]", "a", "=", ":", "\"", "`", "#", " ", "-"}
  MaxLen = 4
  Show = TRUE
INVARIANTS Emit Exact Comment Twice
CHECK_DEADLOCK FALSE
