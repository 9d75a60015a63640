SPECIFICATION TraceSpec
VIEW TraceView
INVARIANTS Harness M01 M02 M03 M04
CHECK_DEADLOCK TRUE
