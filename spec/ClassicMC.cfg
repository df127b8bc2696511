SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Emit PanicOnce PanicNamed BegEnd Ended Answered Kept Flat
CHECK_DEADLOCK FALSE
