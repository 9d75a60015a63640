SPECIFICATION SimSpec
CONSTANTS
  N = 3
  Chunk = 2
  MaxPending = 2
  Sizes = {0, 1, 2, 5, 7}
  MaxStart = 9
  MaxTerm = 4
  MaxLost = 3
  MaxSilent = 2
  MaxChange = 12
  SimDepth = 60
INVARIANT EmitScript
CHECK_DEADLOCK FALSE
