INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 4
  Area = 4
  Emit = TRUE
INVARIANTS RefAllowed Bounds UntouchedZero
VIEW View
