INIT Init
NEXT Next
CONSTANTS MaxItems = 2 Rich = FALSE Emit = TRUE Bug = "none"
INVARIANTS Refines Bounded
CHECK_DEADLOCK FALSE
