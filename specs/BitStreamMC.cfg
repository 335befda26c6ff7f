SPECIFICATION MCSpec
CONSTANTS MaxOps = 4
 Widths = {1, 5, 8, 19, 32}
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
