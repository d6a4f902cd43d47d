INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Margin <- One
INVARIANTS LoadedStays ReadBack Inside
VIEW View
