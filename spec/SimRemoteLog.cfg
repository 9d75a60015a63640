SPECIFICATION SimSpec
CONSTANTS
  MaxLoggers = 5
  MaxRecords = 24
  MaxTakes = 20
  MaxThreads = 3
  SimDepth = 30
INVARIANT EmitScript
CHECK_DEADLOCK FALSE
