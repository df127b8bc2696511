SPECIFICATION Spec
CONSTANTS
  Limits <- Lim
  Errors <- Err
CHECK_DEADLOCK FALSE
