SPECIFICATION ISpec
CONSTANTS Thr = {1, 2, 3}
 MaxCalls = 2
 NONE = NONE
 Total = 6
INVARIANTS NoLostWakeup MutualExclusion
PROPERTY Refines
CHECK_DEADLOCK FALSE
CONSTRAINT Few
