INIT Init
NEXT Next
CONSTANTS MaxItems = 2 Rich = TRUE Emit = TRUE Bug = "none"
INVARIANTS Refines Bounded
CHECK_DEADLOCK FALSE
