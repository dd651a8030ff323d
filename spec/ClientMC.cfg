CONSTANTS
  Lines = 6
  Ctx = 2
SPECIFICATION Spec
INVARIANTS Correct Shown
CHECK_DEADLOCK FALSE
