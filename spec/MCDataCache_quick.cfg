SPECIFICATION MCSpec
CONSTANTS
  Foreign <- ForeignSmall
  Contents = {3}
  MaxBatches = 2
  MaxBatchSize = 2
  MaxFails = 1
  SimDepth = 0
INVARIANTS CachedIsGenuine PendingIsOutstanding AnswersAreRight
PROPERTIES BlobsAreImmutable EveryBatchCompletes
CHECK_DEADLOCK FALSE
