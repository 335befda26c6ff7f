SPECIFICATION Spec
CONSTANTS
  Kind = "drop"
  N0 = 5
  MaxLen = 2
  MaxItems = 20
  MaxN = 99
  Depth = 6
INVARIANTS Allowed InBlock Apart Whole Emit
CHECK_DEADLOCK FALSE
