SPECIFICATION Spec
CONSTANTS N = 8
          OwnCount = TRUE
INVARIANTS InOrder NothingKept NoNeedlessWait
CHECK_DEADLOCK FALSE
