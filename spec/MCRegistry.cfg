INIT Init
NEXT Next
CONSTANTS t1 = t1 t2 = t2 t3 = t3
CONSTANTS Threads = {t1, t2, t3} Rounds = 2 Bug = "none"
INVARIANTS RunsOwn Shares Forgotten Counted Live
SYMMETRY Sym
CHECK_DEADLOCK FALSE
