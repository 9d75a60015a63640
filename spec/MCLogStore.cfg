SPECIFICATION MCSpec
CONSTANTS
  Diff = 1
  MaxIndex = 4
  MaxTerm = 2
  Peers = {1, 2}
  MaxOps = 8
  SimDepth = 0
INVARIANTS Consecutive Complete Covered SnapshotTerm NobodyForgotten NotTwice
PROPERTIES Bounded Served
CHECK_DEADLOCK FALSE
