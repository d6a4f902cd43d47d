INIT Init
NEXT Next
CONSTANT Size = 5
INVARIANT Laws
CHECK_DEADLOCK FALSE
