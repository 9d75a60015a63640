SPECIFICATION MCSpec
CONSTANTS
  Diff = 1
  MaxIndex = 3
  MaxTerm = 2
  Peers = {1, 2}
  MaxOps = 6
  SimDepth = 0
INVARIANTS Consecutive Complete Covered SnapshotTerm NobodyForgotten NotTwice
PROPERTIES Bounded Served
CHECK_DEADLOCK FALSE
