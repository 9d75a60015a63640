SPECIFICATION MCSpec
CONSTANTS
  Ids = {1, 2, 3}
  First = {1, 2, 3}
  MaxCmd = 1
  MaxChange = 2
  MaxCamp = 2
  MaxDown = 1
  MaxLame = 0
  MaxTransfer = 1
  MaxLog = 4
  SimDepth = 0
INVARIANTS DesignHolds StateIsHistory Agreement OneLeader
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
