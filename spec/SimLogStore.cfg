SPECIFICATION SimSpec
CONSTANTS
  Diff = 2
  MaxIndex = 24
  MaxTerm = 6
  Peers = {1, 2, 3}
  MaxOps = 100
  SimDepth = 40
INVARIANT EmitScript
CHECK_DEADLOCK FALSE
