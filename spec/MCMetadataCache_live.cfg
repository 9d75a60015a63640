SPECIFICATION MCSpec
CONSTANTS
  Last = 3
  Size = 2
  IdSets = {{0, 2}}
  MaxResolves = 2
  MaxKeys = 2
  MaxVersion = 1
  MaxNet = 2
  MaxFails = 1
  MaxConflicts = 1
  SimDepth = 0
INVARIANTS FreshIsKnown AskedIsOutstanding KnownIsPast AnswersAreRight AsksAreNeeded CoverIsRight
PROPERTY EveryResolveCompletes
CHECK_DEADLOCK FALSE
