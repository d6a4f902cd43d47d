INIT Init
NEXT Next
CONSTANTS Depth = 3 Given = {0,6,8}
INVARIANTS Delivered SlotsDistinct Counted InOrder
CHECK_DEADLOCK FALSE
