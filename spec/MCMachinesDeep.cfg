INIT Init
NEXT Next
CONSTANTS Depth = 8 Count = 3 Programs = {0, 2} Bug = "none" Emit = FALSE
CONSTANTS Ops = {"create", "destroy", "run", "call", "accel", "fault", "stop", "evict", "reload"}
INVARIANTS Apart
CHECK_DEADLOCK FALSE
VIEW View
