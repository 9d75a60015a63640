SPECIFICATION SysSpec
CONSTANTS
  Nodes = {1, 2}
  Ks = {"a", "c"}
  MinR = 1
  MinP = 1
  MaxReq = 3
  MaxFails = 1
  SimDepth = 0
  MaxGone = 1
INVARIANTS DesignHolds Explainable TellsNoLies
CHECK_DEADLOCK FALSE

