INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 7
  Granules = 6
  Sizes = {0, 17, 48, 96, 1073741824}
  Maxc = 4
  Emit = TRUE
INVARIANTS RefAllowed Tiles Sound
VIEW View
