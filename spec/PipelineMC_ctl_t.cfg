SPECIFICATION Spec
CONSTANTS
  Shapes = {"plain", "nf", "out"}
  MaxOps = 3
  Ops = {"status", "write", "yield", "flush"}
  Rooms = {1000}
  Gen = TRUE
INVARIANTS OnceInOrder Onion StopAfterWrite NoSkip OneHead SizeCounts HooksOnce Contained NeverEscapes
PROPERTY HeadStable
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
