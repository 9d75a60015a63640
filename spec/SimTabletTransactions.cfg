SPECIFICATION SimSpec
CONSTANTS
  Nodes = {1, 2}
  Ids = {1, 2, 3}
  MaxTx = 4
  MaxProcs = 2
  MaxFails = 3
  SimDepth = 40
INVARIANTS EmitScript DesignHolds
CHECK_DEADLOCK FALSE
