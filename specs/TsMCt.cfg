SPECIFICATION Spec
CONSTANTS Cap = 3 Modulus = 4 Lost = 3 Longest = 4 Units = 2
INVARIANTS Whole All
CHECK_DEADLOCK FALSE
