SPECIFICATION MCSpec
CONSTANTS
  N = 2
  Chunk = 2
  MaxPending = 2
  Sizes = {3}
  MaxStart = 2
  MaxTerm = 2
  MaxLost = 1
  MaxSilent = 0
  MaxChange = 3
  SimDepth = 0
INVARIANTS Intact NeverTooEarly Limited OnlyLeadersSend
PROPERTY EveryTransferEnds
CHECK_DEADLOCK FALSE
