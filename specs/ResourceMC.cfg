SPECIFICATION Spec
CONSTANTS Thr = {1, 2, 3}
 Obj = {1}
 Hs <- TheHs
 MaxOps = 3
INVARIANTS Once NotWhileHeld Never0Held NoLeak
CHECK_DEADLOCK FALSE
