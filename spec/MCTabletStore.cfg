SPECIFICATION MCSpec
CONSTANTS
  Tables <- TablesTwo
  MinU <- SmallMin
  MaxU <- SmallMax
  Positions = {0, 1, 3}
  Versions = {0, 1, 2}
  MaxCommands = 2
  MaxOps = 2
  MaxSaves = 1
  Replicas = 2
  SimDepth = 0
INVARIANTS VersionsFollow OneTransaction ChecksHold SameTablets ListsCover
CHECK_DEADLOCK FALSE
