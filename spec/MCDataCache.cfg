SPECIFICATION MCSpec
CONSTANTS
  Foreign <- ForeignSmall
  Contents = {3, 4}
  MaxBatches = 3
  MaxBatchSize = 2
  MaxFails = 2
  SimDepth = 0
INVARIANTS CachedIsGenuine PendingIsOutstanding AnswersAreRight
CHECK_DEADLOCK FALSE
PROPERTIES BlobsAreImmutable
