SPECIFICATION Spec
CONSTANTS N = 1
 L = 2
 Sep <- SepVal
INVARIANT Unforgeable
CHECK_DEADLOCK FALSE
