CONSTANTS
 From = 1890
 To = 2110
SPECIFICATION Spec
INVARIANTS Counted Known
CHECK_DEADLOCK FALSE
