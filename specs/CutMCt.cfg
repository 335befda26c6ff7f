CONSTANTS
 Long = 3
 Most = 7
 Files = 3
SPECIFICATION Spec
INVARIANTS AtAccess AsRuled NoLater NoSooner Once Nothing Sizes
CHECK_DEADLOCK FALSE
