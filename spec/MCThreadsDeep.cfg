INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Child <- MCChild
  Enter <- MCEnter
  MaxThreads = 50
  Depth = 6
  MaxLive = 3
  MaxTid = 3
  Free = FALSE
  Emit = TRUE
INVARIANTS PartitionOk OwnContext WakeExact FifoOk MainLives FairUnderFifo
VIEW View
