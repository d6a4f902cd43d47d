INIT Init
NEXT Next
CONSTANT Full = FALSE
INVARIANT Laws
CHECK_DEADLOCK FALSE
