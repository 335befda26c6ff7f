SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxT = 5
 Dist = 2
 Inc = 1
INVARIANTS Order Together All Ends Prompt
CHECK_DEADLOCK FALSE
