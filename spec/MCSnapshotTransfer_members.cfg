SPECIFICATION MCSpec
CONSTANTS
  N = 3
  Chunk = 2
  MaxPending = 2
  Sizes = {3}
  MaxStart = 2
  MaxTerm = 1
  MaxLost = 1
  MaxSilent = 0
  MaxChange = 4
  SimDepth = 0
INVARIANTS Intact NeverTooEarly Limited OnlyLeadersSend
PROPERTY EveryTransferEnds
CHECK_DEADLOCK FALSE
