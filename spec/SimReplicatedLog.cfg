SPECIFICATION SimSpec
CONSTANTS
  Ids = {1, 2, 3, 4}
  First = {1, 2, 3}
  MaxCmd = 40
  MaxChange = 10
  MaxCamp = 30
  MaxDown = 2
  MaxLame = 1
  MaxTransfer = 30
  MaxLog = 90
  SimDepth = 90
ACTION_CONSTRAINT Spread
INVARIANTS EmitScript DesignHolds
CHECK_DEADLOCK FALSE
