SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxOut = 2
INVARIANTS InOrder Complete FewAtATime
PROPERTY Ends
CHECK_DEADLOCK FALSE
