SPECIFICATION SysSimSpec
CONSTANTS
  Nodes = {1, 2}
  Ks = {"a", "b", "c"}
  MinR = 1
  MinP = 1
  MaxReq = 12
  MaxFails = 3
  SimDepth = 60
  MaxGone = 1
INVARIANTS EmitScript DesignHolds
CHECK_DEADLOCK FALSE

