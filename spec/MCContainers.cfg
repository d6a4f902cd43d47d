INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 4
  Lens = {0, 15, 16}
  MaxLen = 3
  Slots = {1, 2}
  Emit = TRUE
INVARIANTS Faithful OwnedOnce Fits
VIEW View
