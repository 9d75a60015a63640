SPECIFICATION SimSpec
CONSTANTS
  N = 3
  Timeout = 4
  Retry = 2
  Rogue = {1}
  Kinds = {"hb", "sys", "req", "resp"}
  MaxSend = 12
  MaxIn = 30
  MaxTick = 10
  MaxBad = 3
  MaxChange = 3
  Rounds = 12
  SimDepth = 45
INVARIANT EmitScript
CHECK_DEADLOCK FALSE
