SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Emit PanicOnce PanicNamed BegEnd Ended Answered Kept Flat
CHECK_DEADLOCK FALSE
