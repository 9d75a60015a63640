SPECIFICATION MCSpec
CONSTANTS
  MaxLoggers = 2
  MaxRecords = 4
  MaxTakes = 2
  MaxThreads = 3
  SimDepth = 0
INVARIANTS TakingIsRight NothingTwice NothingLost
CHECK_DEADLOCK FALSE
