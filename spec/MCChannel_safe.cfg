SPECIFICATION MCSpec
CONSTANTS
  N = 2
  Timeout = 2
  Retry = 1
  Rogue = {}
  Kinds = {"sys", "hb"}
  MaxSend = 3
  MaxIn = 5
  MaxTick = 2
  MaxBad = 1
  MaxChange = 1
  Rounds = 12
  SimDepth = 0
INVARIANTS Authentic Once Paired NothingLost InOrder OnlySealed
CHECK_DEADLOCK FALSE
