SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxT = 3
 Dist = 1
 Inc = 1
INVARIANTS Order Together All Ends Prompt
CHECK_DEADLOCK FALSE
