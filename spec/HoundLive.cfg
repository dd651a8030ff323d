CONSTANTS
  NRepos = 2
  MaxRev = 1
  MaxReq = 1
  MaxStop = 1
  MaxCrash = 0
  MaxFault = 1
  Kinds = {"pull", "content", "stick", "disk"}
  Configs = "live"
SPECIFICATION LiveSpec
PROPERTIES Visible Fetched StopsAll AllProcessed
CHECK_DEADLOCK FALSE
