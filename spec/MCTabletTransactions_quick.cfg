SPECIFICATION MCSpec
CONSTANTS
  Nodes = {1, 2}
  Ids = {1, 2}
  MaxTx = 1
  MaxProcs = 1
  MaxFails = 1
  SimDepth = 0
INVARIANTS DesignHolds KnowsThePast NoLostUpdate Serial CurrentIsDurable VersionsAreDense
PROPERTY EveryCommitEnds
CHECK_DEADLOCK FALSE
