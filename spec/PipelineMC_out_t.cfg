SPECIFICATION Spec
CONSTANTS
  Shapes = {"out"}
  MaxOps = 4
  Ops = {"status", "write", "yield", "flush"}
  Rooms = {1000}
  Gen = TRUE
INVARIANTS OnceInOrder Onion StopAfterWrite NoSkip OneHead SizeCounts HooksOnce Contained NeverEscapes
PROPERTY HeadStable
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
