CONSTANTS
 From = 1600
 To = 2401
SPECIFICATION Spec
INVARIANTS Counted Known
CHECK_DEADLOCK FALSE
