INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Child <- TraceChild
  Enter <- TraceEnter
  MaxThreads = 50
