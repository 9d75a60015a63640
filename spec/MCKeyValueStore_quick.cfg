SPECIFICATION MCSpec
CONSTANTS
  Nodes = {1, 2}
  Ks = {"a", "c"}
  MinR = 1
  MinP = 1
  MaxReq = 2
  MaxFails = 1
  SimDepth = 0
INVARIANTS DesignHolds Explainable
CHECK_DEADLOCK FALSE

