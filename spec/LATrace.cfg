INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  RO = 65536
  RW = 1048576
  END = 2097152
  Windows <- DefWindows
