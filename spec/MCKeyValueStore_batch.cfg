SPECIFICATION MCSpec
CONSTANTS
  Nodes = {1, 2}
  Ks = {"a"}
  MinR = 2
  MinP = 2
  MaxReq = 4
  MaxFails = 1
  SimDepth = 0
INVARIANTS DesignHolds Explainable
CHECK_DEADLOCK FALSE

