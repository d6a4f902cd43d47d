INIT Init
NEXT Next
CONSTANTS Depth = 3 Given = {0,1,2,3,4,5,6,7,8,9}
INVARIANTS Delivered SlotsDistinct Counted InOrder
CHECK_DEADLOCK FALSE
