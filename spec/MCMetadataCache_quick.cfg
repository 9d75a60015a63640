SPECIFICATION MCSpec
CONSTANTS
  Last = 3
  Size = 2
  IdSets = {{0, 2}}
  MaxResolves = 2
  MaxKeys = 1
  MaxVersion = 2
  MaxNet = 1
  MaxFails = 0
  MaxConflicts = 1
  SimDepth = 0
INVARIANTS FreshIsKnown AskedIsOutstanding KnownIsPast AnswersAreRight AsksAreNeeded CoverIsRight
PROPERTY EveryResolveCompletes
CHECK_DEADLOCK FALSE
