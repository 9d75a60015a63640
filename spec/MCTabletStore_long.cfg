SPECIFICATION MCSpec
CONSTANTS
  Tables <- TablesOne
  MinU <- SmallMin
  MaxU <- SmallMax
  Positions = {0, 1, 3}
  Versions = {1, 2}
  MaxCommands = 3
  MaxOps = 1
  MaxSaves = 1
  Replicas = 2
  SimDepth = 0
INVARIANTS VersionsFollow OneTransaction ChecksHold SameTablets ListsCover
CHECK_DEADLOCK FALSE
