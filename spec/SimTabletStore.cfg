SPECIFICATION SimSpec
CONSTANTS
  Tables <- TablesSim
  MinU <- SmallMin
  MaxU <- SmallMax
  Positions = {0, 1, 2, 3, 4, 5}
  Versions = {1, 2, 3}
  MaxCommands = 14
  MaxOps = 2
  MaxSaves = 4
  Replicas = 2
  SimDepth = 40
INVARIANT EmitScript
CHECK_DEADLOCK FALSE
