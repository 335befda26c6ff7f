SPECIFICATION Spec
CONSTANTS Cap = 2 Modulus = 4 Lost = 3 Longest = 3 Units = 2
INVARIANTS Whole All
CHECK_DEADLOCK FALSE
