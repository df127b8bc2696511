SPECIFICATION Spec
CONSTANTS
  Shapes = {"rgo"}
  MaxOps = 3
  Ops = {"status", "write", "yield", "flush", "panic"}
  Rooms = {1000}
  Gen = TRUE
INVARIANTS OnceInOrder Onion StopAfterWrite NoSkip OneHead SizeCounts HooksOnce Contained NeverEscapes
PROPERTY HeadStable
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
