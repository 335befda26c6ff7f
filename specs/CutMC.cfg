CONSTANTS
 Long = 3
 Most = 5
 Files = 2
SPECIFICATION Spec
INVARIANTS AtAccess AsRuled NoLater NoSooner Once Nothing Sizes
CHECK_DEADLOCK FALSE
