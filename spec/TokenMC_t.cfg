SPECIFICATION Spec
CONSTANTS N = 2
 L = 2
 Sep <- SepVal
INVARIANT Unforgeable
CHECK_DEADLOCK FALSE
