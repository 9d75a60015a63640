SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  MaxTime = 3
  MaxCalls = 6
INVARIANTS DesignHolds TimeIsKept
PROPERTY NeverBack
CHECK_DEADLOCK FALSE
