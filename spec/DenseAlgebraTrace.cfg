SPECIFICATION TraceSpec
CONSTANTS
  Dims <- TraceDims
  Slots = {0, 1, 2}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
