INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANT Full = TRUE
