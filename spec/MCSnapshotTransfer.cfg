SPECIFICATION MCSpec
CONSTANTS
  N = 2
  Chunk = 2
  MaxPending = 2
  Sizes = {1, 5}
  MaxStart = 2
  MaxTerm = 2
  MaxLost = 1
  MaxSilent = 1
  MaxChange = 4
  SimDepth = 0
INVARIANTS Intact NeverTooEarly Limited OnlyLeadersSend
CHECK_DEADLOCK FALSE
