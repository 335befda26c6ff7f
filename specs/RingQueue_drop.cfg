SPECIFICATION Spec
CONSTANTS
  Kind = "drop"
  N0 = 8
  MaxLen = 2
  MaxItems = 9
  MaxN = 99
  Depth = 0
INVARIANTS Allowed InBlock Apart Whole
CHECK_DEADLOCK FALSE
