SPECIFICATION MCSpec
CONSTANTS
  N = 2
  Timeout = 2
  Retry = 1
  Rogue = {}
  Kinds = {"sys"}
  MaxSend = 2
  MaxIn = 5
  MaxTick = 3
  MaxBad = 1
  MaxChange = 1
  Rounds = 12
  SimDepth = 0
INVARIANTS Authentic Once Paired NothingLost InOrder OnlySealed Recovers RecoversForOne
CHECK_DEADLOCK FALSE
