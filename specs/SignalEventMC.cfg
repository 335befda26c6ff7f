SPECIFICATION ISpec
CONSTANTS Thr = {1, 2, 3}
 MaxCalls = 2
 NONE = NONE
 Total = 4
INVARIANTS NoLostWakeup MutualExclusion
PROPERTY Refines
CHECK_DEADLOCK FALSE
CONSTRAINT Few
