CONSTANTS
 N = 7
 D = 3
 G = 1
 S = 3
SPECIFICATION Spec
INVARIANTS Faithful Short
CHECK_DEADLOCK FALSE
