SPECIFICATION MCSpec
CONSTANTS
  Ids = {1, 2, 3}
  First = {1, 2}
  MaxCmd = 1
  MaxChange = 3
  MaxCamp = 2
  MaxDown = 0
  MaxLame = 0
  MaxTransfer = 1
  MaxLog = 5
  SimDepth = 0
INVARIANTS DesignHolds StateIsHistory Agreement OneLeader
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
