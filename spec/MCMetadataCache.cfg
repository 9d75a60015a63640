SPECIFICATION MCSpec
CONSTANTS
  Last = 3
  Size = 2
  IdSets = {{1}, {0, 2}, {1, 3}}
  MaxResolves = 2
  MaxKeys = 2
  MaxVersion = 2
  MaxNet = 2
  MaxFails = 1
  MaxConflicts = 1
  SimDepth = 0
INVARIANTS FreshIsKnown AskedIsOutstanding KnownIsPast AnswersAreRight AsksAreNeeded CoverIsRight
CHECK_DEADLOCK FALSE
