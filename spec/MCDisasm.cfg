INIT Init
NEXT Next
INVARIANTS Complete Disjoint Determined Named
CHECK_DEADLOCK FALSE
