INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 10
  Granules = 8
  Sizes = {0, 17, 48, 64, 80, 128, 1073741824}
  Maxc = 5
  Emit = TRUE
INVARIANTS RefAllowed Tiles Sound
VIEW View
