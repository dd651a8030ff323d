CONSTANTS
  Paths = {}
  Ids = {}
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
