INIT Init
NEXT Next
CONSTANTS Depth = 5 Loads = {0, 1, 5} Machines = {0, 1, 2} Arenas = {0, 1} Emit = TRUE
INVARIANTS Ruled Forgets
CHECK_DEADLOCK FALSE
