INIT Init
NEXT Next
CONSTANTS Depth = 6 Loads = {0, 1, 5} Machines = {0, 1, 2} Arenas = {0, 1} Emit = FALSE
INVARIANTS Ruled Forgets
CHECK_DEADLOCK FALSE
VIEW View
