SPECIFICATION MCSpec
CONSTANTS
  N = 2
  Timeout = 2
  Retry = 1
  Rogue = {2}
  Kinds = {"sys"}
  MaxSend = 2
  MaxIn = 4
  MaxTick = 2
  MaxBad = 1
  MaxChange = 1
  Rounds = 10
  SimDepth = 0
INVARIANTS Authentic Once Paired OnlyTrusted NothingLost InOrder OnlySealed
CHECK_DEADLOCK FALSE
