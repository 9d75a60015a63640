SPECIFICATION SimSpec
CONSTANTS
  Foreign <- ForeignLarge
  Contents = {3, 4}
  MaxBatches = 8
  MaxBatchSize = 3
  MaxFails = 6
  SimDepth = 40
INVARIANT EmitScript
CHECK_DEADLOCK FALSE
