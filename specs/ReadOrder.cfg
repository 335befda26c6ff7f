SPECIFICATION Spec
CONSTANTS N = 6
          OwnCount = TRUE
INVARIANTS InOrder NothingKept NoNeedlessWait
CHECK_DEADLOCK FALSE
