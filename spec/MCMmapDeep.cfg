INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 7
  Area = 5
  Emit = TRUE
INVARIANTS RefAllowed Bounds UntouchedZero
VIEW View
