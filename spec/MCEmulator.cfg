INIT Init
NEXT Next
CONSTANTS MaxOps = 3
MaxFuel = 45
INVARIANT Laws
CHECK_DEADLOCK FALSE
