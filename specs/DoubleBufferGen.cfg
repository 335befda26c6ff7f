SPECIFICATION GSpec
CONSTANTS MaxN = 5
 Sizes = {2, 3}
 Depth = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
