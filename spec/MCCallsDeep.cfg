INIT Init
NEXT Next
CONSTANTS MaxItems = 3 Rich = FALSE Emit = FALSE Bug = "none"
INVARIANTS Refines Bounded
CHECK_DEADLOCK FALSE
