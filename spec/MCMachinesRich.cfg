INIT Init
NEXT Next
CONSTANTS Depth = 6 Count = 2 Programs = {0, 2} Bug = "none" Emit = TRUE
CONSTANTS Ops = {"create", "destroy", "run", "call", "accel", "fault", "evict", "reload"}
INVARIANTS Apart
CHECK_DEADLOCK FALSE
