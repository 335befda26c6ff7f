CONSTANTS
 Streams = {1, 2}
 Most = 4
 Parts = 3
SPECIFICATION Spec
INVARIANTS InStep NoneBack AtOnce
CHECK_DEADLOCK FALSE
