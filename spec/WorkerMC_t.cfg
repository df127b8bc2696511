SPECIFICATION Spec
CONSTANTS
  Limits = TRUE
  Errors = TRUE
  K = 4
  N = {1, 2, 3}
INVARIANTS Emit Bounded ErrCloses Taken Errless OpenRuns
PROPERTY Ends
