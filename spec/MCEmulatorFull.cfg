INIT Init
NEXT Next
CONSTANTS MaxOps = 4
MaxFuel = 45
INVARIANT Laws
CHECK_DEADLOCK FALSE
