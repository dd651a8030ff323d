CONSTANTS
  Paths = {"/h", "/"}
  Ids = {1, 2}
SPECIFICATION Spec
INVARIANTS HealthOnly NotBefore NoRegress Clean
PROPERTIES Forever Eventually Ends
CHECK_DEADLOCK FALSE
