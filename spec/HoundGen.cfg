CONSTANTS
 NRepos = 2
 MaxRev = 4
 Depth = 150
 Focus = "any"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
