SPECIFICATION TraceSpec
CONSTANT Start <- RStart
CONSTANT Step <- RStep
CHECK_DEADLOCK FALSE
