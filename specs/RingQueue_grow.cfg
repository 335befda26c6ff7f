SPECIFICATION Spec
CONSTANTS
  Kind = "grow"
  N0 = 4
  MaxLen = 2
  MaxItems = 6
  MaxN = 8
  Depth = 0
INVARIANTS Allowed InBlock Apart Whole
CHECK_DEADLOCK FALSE
