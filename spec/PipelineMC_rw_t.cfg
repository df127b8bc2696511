SPECIFICATION Spec
CONSTANTS
  Shapes = {"one", "short"}
  MaxOps = 5
  Ops = {"status", "write", "flush", "hdr", "before", "hijack"}
  Rooms = {3, 1000}
  Gen = TRUE
INVARIANTS OnceInOrder Onion StopAfterWrite NoSkip OneHead SizeCounts HooksOnce Contained NeverEscapes
PROPERTY HeadStable TakenSilent
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
