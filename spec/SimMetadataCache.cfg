SPECIFICATION SimSpec
CONSTANTS
  Last = 7
  Size = 3
  IdSets = {{1}, {0, 2}, {2, 5}, {1, 3, 6}, {0, 1, 4, 7}}
  MaxResolves = 4
  MaxKeys = 4
  MaxVersion = 3
  MaxNet = 3
  MaxFails = 4
  MaxConflicts = 3
  SimDepth = 25
INVARIANT EmitScript
CHECK_DEADLOCK FALSE
