CONSTANTS
 Streams = {1, 2, 3}
 Most = 3
 Parts = 3
SPECIFICATION Spec
INVARIANTS InStep NoneBack AtOnce
CHECK_DEADLOCK FALSE
