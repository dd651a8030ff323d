CONSTANTS
  NRepos = 2
  MaxRev = 1
  MaxReq = 1
  MaxStop = 1
  MaxCrash = 1
  MaxFault = 1
  Kinds = {"pull", "content", "stick", "disk"}
  Configs = "some"
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS LiveIsComplete LiveIsOwn RunIsServed SlotBound NoLeak LiveOnDisk QuietDb KnownIsServed Forward NotForgotten PushOnly FailedIsOut OneUser BuiltFromPulled
PROPERTIES NoFetchAfterStop NoPointlessBuild ReuseExact CrashSafe
CHECK_DEADLOCK FALSE
