SPECIFICATION Spec
CONSTANTS
  Limits = TRUE
  Errors = TRUE
  K = 3
  N = {1, 2}
INVARIANTS Emit Bounded ErrCloses Taken Errless OpenRuns
PROPERTY Ends
