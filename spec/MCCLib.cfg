INIT Init
NEXT Next
CONSTANT Size = 4
INVARIANT Laws
CHECK_DEADLOCK FALSE
